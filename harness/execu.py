"""Runs scenarios against the library and records what happened.

A scenario: {"id", "mode": "eager" | "string", "names": [attribute names],
"events": [...]}.  The trace has the same events (macros expanded, events whose
inputs do not exist dropped) with the library's answers and every entity that
changed; it is judged by spec/Trace.tla, never here.
"""
import array
import io
import itertools
import json
import mmap
import os
import resource
import signal
import struct
import sys
import tempfile
import types

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runtime as R  # noqa: E402

BO = {k: getattr(R.ByteOrder, n, None) for k, n in (      # missing ones show in what they are used for
    ('', 'DEFAULT'), ('<', 'LE'), ('>', 'BE'), ('=', 'NATIVE_STANDARD'), ('@', 'NATIVE_NATIVE'), ('!', 'NETWORK'))}


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang


signal.signal(signal.SIGPROF, _alarm)
HANG_SECONDS = float(os.environ.get('VERIF_HANG', '5'))


# --- values ------------------------------------------------------------------------
def limbs(n):
    out = []
    while n:
        out.append(n & 255)
        n >>= 8
    return out


CANON = [127, 248, 0, 0, 0, 0, 0, 0]


def proj(v, reg, depth=0):
    """The abstract value of a Python value, told apart by its exact type."""
    t = type(v)
    if t is int:
        if v.bit_length() > 4096:
            return {'k': 'odd', 'r': 'huge int'}
        return {'k': 'int', 'neg': v < 0, 'mag': limbs(abs(v))}
    if t is bool:
        return {'k': 'bool', 'b': v}
    if t is float:
        d = list(struct.pack('>d', v))
        if v != v and d != CANON:
            d = CANON[:7] + [1]
        return {'k': 'flt', 'd': d}
    if t is bytes:
        return {'k': 'byt', 's': list(v)}
    if t is str:
        return {'k': 'str', 'c': [ord(c) for c in v]}
    if v is None:
        return {'k': 'none', 'z': 0}
    if t is R.MyBytes or isinstance(v, R.Cust):
        return {'k': 'cust', 'cn': t.__name__, 'w': proj(getattr(v, 'w', None), reg, depth + 1)}
    if depth > 150:
        return {'k': 'odd', 'r': 'too deep'}
    if t is list:
        return {'k': 'lst', 'i': [proj(x, reg, depth + 1) for x in v]}
    if t is tuple:
        return {'k': 'tup', 'e': [proj(x, reg, depth + 1) for x in v]}
    if isinstance(v, R.Structured):
        return {'k': 'obj', 'cls': cls_name(t, reg), 'f': fields(v, reg, depth + 1)}
    return {'k': 'odd', 'r': f'{t.__module__}.{t.__qualname__}'}


def cls_name(t, reg):
    for c in t.__mro__:
        if c in reg:
            return reg[c]
    return '?' + t.__name__


def fields(v, reg, depth=0):
    out = []
    for n in type(v).attrs:
        try:
            x = getattr(v, n)
        except AttributeError:
            continue
        out.append({'n': n, 'v': proj(x, reg, depth)})
    return out


def make(v, ns):
    k = v['k']
    if k == 'int':
        n = int.from_bytes(bytes(v['mag']), 'little')
        return -n if v['neg'] else n
    if k == 'bool':
        return v['b']
    if k == 'flt':
        return struct.unpack('>d', bytes(v['d']))[0]
    if k == 'byt':
        return bytes(v['s'])
    if k == 'str':
        return ''.join(map(chr, v['c']))
    if k == 'none':
        return None
    if k == 'lst':
        return [make(x, ns) for x in v['i']]
    if k == 'tup':
        return tuple([make(x, ns) for x in v['e']])
    if k == 'cust':
        return R.CUSTS[v['cn']].quiet(make(v['w'], ns))
    if k == 'obj':
        return ns[v['cls']](*[make(f['v'], ns) for f in v['f']])
    raise AssertionError(k)


def refs(x):
    """Names of the classes a definition mentions."""
    if isinstance(x, list):
        return [n for y in x for n in refs(y)]
    if isinstance(x, dict):
        own = [x['n']] if x.get('k') in ('ref', 'inst') else []
        return own + [n for k, y in x.items() if k not in ('vals', 'dv') for n in refs(y)]
    return []


# --- hints ----------------------------------------------------------------------------
ENC = {'utf8': "'utf8'", 'ascii': "'ascii'", 'latin1': "'latin-1'", 'utf16': "'utf-16-le'",
       'rev': 'RevCodec', 'xor': 'XorCodec'}


class Builder:
    """Writes hints as source text, with the objects they need in a namespace."""

    def __init__(self, ns):
        self.ns = ns
        self.n = itertools.count()
        self.shared = {}

    def put(self, value):
        name = f'_h{next(self.n)}'
        self.ns[name] = value
        return name

    def strarg(self, t):
        k = t['k']
        if k == 'char':
            return str(t['n'])
        if k == 'dchar':
            return t['f']
        if k == 'tchar':
            return repr(bytes([t['b']]))
        if k == 'net':
            return 'NET'
        return 'math.inf'

    def fix(self, x):
        """Expressions with their constants as Python values."""
        x = dict(x)
        for key in ('a', 'b'):
            if isinstance(x.get(key), dict):
                x[key] = self.fix(x[key])
        if 'v' in x:
            x['py'] = make(x['v'], self.ns)
        return x

    def decider(self, t):
        return self.put(R.decider(t['lbl'], self.fix(t['d'])))

    def hint(self, t):
        if t.get('share'):      # one hint object for all its uses
            key = json.dumps(t, sort_keys=True)
            if key not in self.shared:
                src = self.plain_hint(t)
                self.shared[key] = self.put(eval(src, self.ns))
            return self.shared[key]
        return self.plain_hint(t)

    def plain_hint(self, t):
        if t.get('meta'):
            return f'Annotated[{self.plain_hint({**t, "meta": ""})}, {t["meta"]}]'
        k = t['k']
        if k == 'num':
            if t.get('sp') == 'ann':
                return f'Annotated[{t.get("base", "object")}, {t["f"]}]'
            return t['f']
        if k in ('pad', 'pascal'):
            return f'{k}[{t["n"]}]'
        if k in ('char', 'dchar', 'net', 'cchar', 'tchar'):
            if k == 'tchar' and t['b'] == 0 and t.get('sp') == 'alias':
                return 'null_char'
            s = f'char[{self.strarg(t)}]'
            return f'Annotated[bytes, {s}]' if t.get('sp') == 'ann' else s
        if k == 'uni':
            if t['enc'] == 'utf8' and t.get('sp') == 'alias':
                if t['t']['k'] == 'tchar' and t['t']['b'] == 0:
                    return 'null_unicode'
                return f'unicode[{self.strarg(t["t"])}]'
            enc = ENC[t['enc']]
            if t.get('sp') == 'inst' and enc.endswith('Codec'):
                enc += '()'
            return f'unicode[{self.strarg(t["t"])}, {enc}]'
        if k == 'arr':
            h = [str(t['n']) if t['cf'] == '' else t['cf']] + ([t['sf']] if t['sf'] else [])
            return f'array[Header[{", ".join(h)}], {self.hint(t["t"])}]'
        if k == 'tup':
            name = 'Tuple' if t.get('sp') == 'alias' else 'tuple'
            return f'{name}[{", ".join(map(self.hint, t["e"])) or "()"}]'
        if k == 'ref':
            return t['n']
        if k == 'inst':
            return f'{t["n"]}[{", ".join(map(self.hint, t["a"]))}]'
        if k == 'self':
            return 'Self'
        if k in ('lb', 'la'):
            alts = [self.hint(m['t']) for m in t['m']] + [self.hint(d) for d in t['df']]
            union = f'Union[{", ".join(alts + ["pascal[201]", "char[202]"])}]'
            keys = [self.put(make(m['key'], self.ns)) for m in t['m']]
            mp = '{' + ', '.join(f'{a}: {b}' for a, b in zip(keys, alts)) + '}'
            df = self.hint(t['df'][0]) if t['df'] else 'None'
            if k == 'lb':
                if not t['df'] and t.get('sp') == 'nodef':
                    return f'Annotated[{union}, LookbackDecider({self.decider(t)}, {mp})]'
                return f'Annotated[{union}, LookbackDecider({self.decider(t)}, {mp}, {df})]'
            return (f'Annotated[{union}, LookaheadDecider({self.hint(t["r"])}, '
                    f'{self.decider(t)}, {mp}, {df})]')
        if k == 'cond':
            dv = ''.join(', ' + self.put(make(v, self.ns)) for v in t['dv'])
            return f'Annotated[{self.hint(t["t"])}, Condition({self.decider(t)}{dv})]'
        if k == 'cust':
            inner = self.hint(t['t'])
            made = f'SerializeAs({inner})'
            if t.get('sh'):
                made = f'SHARED.setdefault({inner!r}, {made})'
            if t['fac']:
                made += f'.with_factory(FACTORIES[{t["cn"]!r}])'
            return f'Annotated[{t["cn"]}, {made}]'
        if k == 'vint':
            return 'Annotated[int, VarInt()]'
        if k == 'u24':
            return 'Annotated[int, U24()]'
        if k == 'rel':
            return f'Annotated[int, REL[{t["m"]!r}]({self.put(self.fix(t["d"]))})]'
        return {'nil': 'None', 'plain': t.get('src', 'int'), 'bad': t.get('src'), 'cvar': 'ClassVar[uint8]',
                'tv': t.get('n'), 'netm': 'NET'}[k]

    def class_source(self, c):
        bases = []
        for b in c['bases']:
            s = b['n']
            if b['a']:
                s += f'[{", ".join(map(self.hint, b["a"]))}]'
            bases.append(s)
        if not bases:
            bases = ['Structured']
        if c['gp']:
            g = f'Generic[{", ".join(c["gp"])}]'
            bases = [g] + bases if c.get('gfirst') else bases + [g]
        kw = []
        if c['bo']:
            kw.append(f'byte_order=BO[{c["bo"]!r}]')
        if c['mode'] == 'override':
            kw.append('byte_order_mode=ByteOrderMode.OVERRIDE')
        if not c['init']:
            kw.append('init=False')
        lines = [f'class {c["n"]}({", ".join(bases + kw)}):']
        for f in c['own']:
            lines.append(f'    {f["n"]}: {self.hint(f["h"])}')
        if not c['init']:
            args = c['initargs']
            lines.append(f'    def __init__({", ".join(["self"] + args)}):')
            lines += [f'        self.{a} = {a}' for a in args]
            lines.append('        self.__post_init__()')
        lines.append('    def __post_init__(self):')
        lines.append('        self.__dict__["post_"] = self.__dict__.get("post_", 0) + 1')
        lines.append('        busy(self)')
        if c.get('touch'):      # sets every attribute once more, the last one first
            lines.append(f'        for n in {[f["n"] for f in c["own"]][::-1]!r}:')
            lines.append('            if n in self.__dict__:')
            lines.append('                v = self.__dict__.pop(n)')
            lines.append('                setattr(self, n, v)')
        return '\n'.join(lines) + '\n'


_mods = itertools.count()


class Run:
    def __init__(self, sc):
        self.sc = sc
        self.mod = types.ModuleType(f'scenario_{os.getpid()}_{next(_mods)}')
        if sc['mode'] != 'nomod':     # a module need not be among those known
            sys.modules[self.mod.__name__] = self.mod
        self.ns = self.mod.__dict__
        for k, v in vars(R).items():
            if not k.startswith('__'):
                self.ns[k] = v
        self.ns['BO'] = BO
        self.ns['SHARED'] = {}
        for tv in ('T', 'U', 'V', 'W'):
            self.ns[tv] = R.TypeVar(tv)
        self.b = Builder(self.ns)
        self.reg = {}
        self.objs, self.bufs, self.files = {}, {}, {}
        self.sers = {}
        self.classes = {}
        self.last = {'objs': {}, 'bufs': {}, 'files': {}}
        self.trace = []
        self.where = {}      # scenario event label -> trace position
        self.result = {}     # label -> bytes packed
        self.tmp = []
        self.hung = False

    # -- projection of everything
    def pobj(self, o):
        return {'c': cls_name(type(o), self.reg), 'bo': str(getattr(o.byte_order, 'value', '?')),
                'f': fields(o, self.reg)}

    def pbuf(self, b):
        return list(bytes(b))

    def pfile(self, f):
        pos = f.tell()
        f.seek(0)
        data = f.read()
        f.seek(pos)
        return {'b': list(data), 'p': pos}

    def delta(self):
        d = {}
        for kind, items, p in (('objs', self.objs, self.pobj), ('bufs', self.bufs, self.pbuf),
                               ('files', self.files, self.pfile)):
            now = {i: p(x) for i, x in items.items()}
            last = self.last[kind]
            d[kind] = [{'id': i, 'x': x} for i, x in now.items() if i not in last or last[i] != x]
            self.last[kind] = now
        now = {n: self.pclass(c) for c, n in self.reg.items()}
        d['classes'] = [n for n, x in self.classes.items() if now[n] != x]
        self.classes = now
        return d

    def pclass(self, c):
        return (c.attrs, c.byte_order, c.serializer.num_values, list(c.__dict__.get('__annotations__', ())))

    def log(self):
        out, seen = [], set()
        for e in R.LOG:
            if e[0] != '#cust':     # what a decider saw: the same thing again adds nothing
                x = {'lbl': e[0], 'fac': False, 'seen': [{'n': n, 'v': proj(v, self.reg)} for n, v in e[1]]}
                key = json.dumps(x)
                if key not in seen:
                    seen.add(key)
                    out.append(x)
            else:
                out.append({'lbl': '#' + e[1], 'fac': True, 'seen': [{'n': 'w', 'v': proj(e[2], self.reg)}]})
        return out

    # -- events
    def run(self):
        R.NAMES[:] = self.sc['names']
        R.BUSY.update(on=bool(self.sc.get('busy')), objs=self.objs, now=False)
        try:
            for e in self.sc['events']:
                for x in self.expand(e):
                    self.event(x)
                    if self.hung:
                        return self.trace
        finally:
            for f in self.tmp:
                f.close()
            sys.modules.pop(self.mod.__name__, None)
        return self.trace

    def expand(self, e):
        op = e['op']
        if op == 'sweep':
            # every prefix (cap evenly spread) or every corrupted byte of a packed record
            data = self.result.get(e['ev'])
            if data is None:
                return
            n = len(data)
            if e['kind'] == 'cut':
                ks = list(range(n))
            elif e['kind'] == 'flip':
                ks = list(range(n))
            else:
                ks = list(range(n + 1))
            if len(ks) > e['cap']:
                step = len(ks) / e['cap']
                ks = sorted({ks[int(i * step)] for i in range(e['cap'])} | {ks[0], ks[-1]})
            for j, k in enumerate(ks):
                pre = e['pre']
                if e['kind'] == 'cut':
                    body = list(data[:k])
                elif e['kind'] == 'flip':
                    body = list(data)
                    body[k] ^= e['xor'][j % len(e['xor'])]
                else:
                    body = list(data[:k]) + [e['xor'][j % len(e['xor'])]] + list(data[k:])
                for m, way in enumerate(e['ways']):
                    if e.get('rot') and (j + m) % e['rot']:
                        continue
                    ident = f'{e["ev"]}_{e["kind"]}{k}_{m}'
                    g = f'{e["ev"]}.{e["kind"]}.{k}' if e.get('eq') else ''
                    yield from self.unpack_events(way, ident, e['c'], e['t'], pre, body, e['post'], g)
            return
        yield e

    def unpack_events(self, way, ident, c, t, pre, body, post, g, frm=''):
        """One unpack of pre + body + post through an entry point: (kind, new or in place)."""
        kind, new = way[0], way[1]
        o = ident + 'o' if new else t
        cc = c if new else ''
        if kind == 'unpack':
            yield {'op': 'buf', 'id': ident, 'kind': way[2], 'b': body + post}
            yield {'op': 'unpack', 'o': o, 'c': cc, 'buf': ident, 'g': g, 'from': frm}
        elif kind == 'unpackfrom':
            yield {'op': 'buf', 'id': ident, 'kind': way[2], 'b': pre + body + post}
            yield {'op': 'unpackfrom', 'o': o, 'c': cc, 'buf': ident, 'off': len(pre), 'g': g, 'from': frm}
        else:
            yield {'op': 'file', 'id': ident, 'kind': way[2], 'b': pre + body + post, 'p': len(pre)}
            yield {'op': 'unpackread', 'o': o, 'c': cc, 'file': ident, 'g': g, 'from': frm}
        yield {'op': 'drop', 'ids': [ident]}
        if new:
            yield {'op': 'drop', 'ids': [o]}

    def event(self, e):
        op = e['op']
        if op == 'drop':
            # forget entities (both sides): keeps long traces small
            for i in e['ids']:
                for m, k in ((self.objs, 'objs'), (self.bufs, 'bufs'), (self.files, 'files')):
                    m.pop(i, None)
                    self.last[k].pop(i, None)
            self.trace.append({'op': 'drop', 'ids': e['ids']})
            return
        e = dict(e)
        if not self.ready(e):
            return
        del R.LOG[:]
        obs = {'ok': True, 've': False, 'hang': False, 'exc': ''}
        signal.setitimer(signal.ITIMER_PROF, HANG_SECONDS)
        try:
            try:
                getattr(self, 'do_' + op)(e, obs)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except Hang:
            obs.update(ok=False, hang=True, exc='hang')
            self.hung = True
        except Exception as x:
            obs.update(ok=False, ve=isinstance(x, ValueError), exc=f'{type(x).__name__}: {x}'[:300])
        obs['log'] = self.log()
        for k, v in (('size', -1), ('post', 0), ('b', []), ('attrs', []), ('bo', ''), ('str', ''),
                     ('repr', ''), ('eq', False), ('ne', False), ('nv', -1), ('vals', [])):
            obs.setdefault(k, v)
        label = e.pop('label', '')
        e['g'] = e.get('g', '')
        frm = e.get('from', '')
        e['from'] = self.where.get(frm, 0) if frm != '' else 0
        e['obs'] = obs
        e['d'] = self.delta()
        self.trace.append(e)
        if label != '':
            self.where[label] = len(self.trace)
            if op in ('pack', 'serpack') and obs['ok']:
                self.result[label] = bytes(obs['b'])

    def ready(self, e):
        op = e['op']
        if op == 'buf' or op == 'file':
            if 'src' in e:
                data = []
                for s in e.pop('src'):
                    if 'lit' in s:
                        data += s['lit']
                    else:
                        if s['ev'] not in self.result:
                            return False
                        data += list(self.result[s['ev']])
                e['b'] = data
            if 'cut' in e:
                e['b'] = e['b'][:e.pop('cut') % (len(e['b']) or 1)]
            if 'cutend' in e:
                e['b'] = e['b'][:max(0, len(e['b']) - e.pop('cutend'))]
            if 'room' in e:    # buffer sized relative to a record: off + len + room
                r = e.pop('room')
                if r['ev'] not in self.result:
                    return False
                n = r['off'] + len(self.result[r['ev']]) + r['extra']
                if n < 0:
                    return False
                e['b'] = [(r['fill'] + i) % 256 for i in range(n)]
            if op == 'file' and 'poff' in e:
                e['p'] = min(len(e['b']), e.pop('poff'))
            return True
        if 'offev' in e:    # offset after earlier records
            off = e.pop('off0', 0)
            for ev in e.pop('offev'):
                if ev not in self.result:
                    return False
                off += len(self.result[ev])
            e['off'] = off
        if op == 'define':
            need = [b['n'] for b in e['c']['bases']] + refs(e['c']['bases']) + refs(e['c']['own'])
            return all(n in self.ns for n in need)
        if op == 'new':
            return e['c'] in self.ns
        if op == 'eq':
            return e['a'] in self.objs and e['b'] in self.objs
        for k in ('sa', 'sb'):
            if k in e and e[k] not in self.sers:
                return False
        if op in ('serpack', 'serpackinto', 'serpackwrite', 'serunpackfrom', 'serunpackread'):
            if e['s'] not in self.sers:
                return False
        if 'o' in e:
            if op.startswith('unpack') and e['c'] != '':
                if e['c'] not in self.ns:
                    return False
            elif e['o'] not in self.objs:
                return False
        if 'buf' in e and e['buf'] not in self.bufs:
            return False
        if 'file' in e and e['file'] not in self.files:
            return False
        if op in ('poke', 'seek') and e['id'] not in (self.bufs if op == 'poke' else self.files):
            return False
        if op == 'poke' and len(self.bufs[e['id']]) <= e['off']:
            return False
        if op == 'grow':
            return type(getattr(self.objs[e['o']], e['n'], None)) is list
        if op in ('unpackfrom', 'serunpackfrom') and e['off'] > len(self.bufs[e['buf']]):
            return False
        return True

    def do_define(self, e, obs):
        c = e['c']
        src = self.b.class_source(c)
        if self.sc['mode'] == 'string':
            src = 'from __future__ import annotations\n' + src
        e['src'] = src
        exec(compile(src, self.mod.__name__, 'exec', dont_inherit=True), self.ns)
        cls = self.ns[c['n']]
        self.reg[cls] = c['n']
        obs['attrs'] = list(cls.attrs)
        obs['bo'] = str(cls.byte_order.value)
        obs['nv'] = cls.serializer.num_values

    def do_new(self, e, obs):
        cls = self.ns[e['c']]
        args = [make(v, self.ns) for v in e['a']]
        if e.get('kw'):
            # the last ones by name
            pos = len(args) - len(e['kw'])
            kw = dict(zip(e['kw'], args[pos:]))
            o = cls(*args[:pos], **{n: kw[n] for n in e.get('perm', kw)})
        else:
            o = cls(*args)
        del R.LOG[:]
        self.objs[e['o']] = o
        obs['post'] = o.__dict__.get('post_', 0)

    def do_set(self, e, obs):
        if e.get('redo'):
            delattr(self.objs[e['o']], e['n'])
        setattr(self.objs[e['o']], e['n'], make(e['v'], self.ns))

    def do_mark(self, e, obs):
        setattr(self.objs[e['o']], e['n'], make(e['v'], self.ns))

    def do_grow(self, e, obs):
        getattr(self.objs[e['o']], e['n']).append(make(e['v'], self.ns))

    @staticmethod
    def size(ser):
        try:
            n = ser.size
        except Exception:
            return -1
        return n if type(n) is int and 0 <= n < 2**31 else -1

    def do_pack(self, e, obs):
        o = self.objs[e['o']]
        b = o.pack()
        obs['size'] = self.size(o.serializer)
        if type(b) is not bytes:
            raise TypeError(f'pack returned {type(b)}')
        obs['b'] = list(b)

    def do_packinto(self, e, obs):
        o = self.objs[e['o']]
        if e['off'] == 0 and e.get('noff'):
            o.pack_into(self.bufs[e['buf']])
        else:
            o.pack_into(self.bufs[e['buf']], e['off'])
        obs['size'] = self.size(o.serializer)

    def do_packwrite(self, e, obs):
        o = self.objs[e['o']]
        o.pack_write(self.files[e['file']])
        obs['size'] = self.size(o.serializer)

    def _unpack(self, e, obs, method, *args):
        if e['c'] != '':
            cls = self.ns[e['c']]
            o = getattr(cls, 'create_' + method)(*args)
            obs['size'] = self.size(cls.serializer)
            obs['log_done'] = True
            self.objs[e['o']] = o
            if type(o) is not cls:
                obs['exc'] = f'created a {type(o)}'
            obs['post'] = o.__dict__.get('post_', 0)
        else:
            o = self.objs[e['o']]
            getattr(o, method)(*args)
            obs['size'] = self.size(o.serializer)
        obs.pop('log_done', None)

    def do_unpack(self, e, obs):
        self._unpack(e, obs, 'unpack', self.bufs[e['buf']])

    def do_unpackfrom(self, e, obs):
        if e['off'] == 0 and e.get('noff'):
            self._unpack(e, obs, 'unpack_from', self.bufs[e['buf']])
        else:
            self._unpack(e, obs, 'unpack_from', self.bufs[e['buf']], e['off'])

    def do_unpackread(self, e, obs):
        self._unpack(e, obs, 'unpack_read', self.files[e['file']])

    def do_wbo(self, e, obs):
        self.objs[e['r']] = self.objs[e['o']].with_byte_order(BO[e['bo']])

    def do_eq(self, e, obs):
        a, b = self.objs[e['a']], self.objs[e['b']]
        obs['eq'] = bool(a == b)
        obs['ne'] = bool(a != b)

    def do_text(self, e, obs):
        o = self.objs[e['o']]
        e['vs'] = [str(getattr(o, n)) for n in type(o).attrs]
        obs['str'], obs['repr'] = str(o), repr(o)

    def do_buf(self, e, obs):
        b = bytes(e['b'])
        kind = e['kind']
        if kind == 'bytes':
            x = b
        elif kind == 'bytearray':
            x = bytearray(b)
        elif kind == 'mv':
            x = memoryview(bytearray(b))
        elif kind == 'romv':
            x = memoryview(b)
        elif kind == 'arr':
            x = array.array('B', b)
        elif kind == 'mmap':
            x = bytearray()      # a map of nothing is not possible
            if b:
                x = mmap.mmap(-1, len(b))
                x[:] = b
                self.tmp.append(x)
        else:
            raise AssertionError(kind)
        self.bufs[e['id']] = x

    def do_poke(self, e, obs):
        self.bufs[e['id']][e['off']] = e['x']

    def do_file(self, e, obs):
        if e['kind'] == 'disk':
            f = tempfile.TemporaryFile()
            f.write(bytes(e['b']))
            self.tmp.append(f)
        else:
            f = io.BytesIO(bytes(e['b']))
        f.seek(e['p'])
        self.files[e['id']] = f

    # -- serializers on their own
    FMT = {'bool8': '?', 'int8': 'b', 'uint8': 'B', 'int16': 'h', 'uint16': 'H', 'int32': 'i',
           'uint32': 'I', 'int64': 'q', 'uint64': 'Q', 'float16': 'e', 'float32': 'f', 'float64': 'd'}

    def fmt(self, t):
        k = t['k']
        if k == 'num':
            return self.FMT[t['f']]
        if k == 'cust':
            return self.fmt(t['t'])
        return f'{t["n"]}{dict(pad="x", char="s", pascal="p")[k]}'

    def do_ser(self, e, obs):
        Z = R.serializers
        ts, how = e['ts'], e['how']
        if how == 'null':
            s = R.NullSerializer()
        elif how == 'several':
            s = R.VarInts(len(ts))
        elif how == 'direct' and all(t['k'] != 'cust' for t in ts):
            s = R.StructSerializer(''.join(map(self.fmt, ts)), BO[e['bo']])
        elif how == 'direct':
            acts = tuple(R.FACTORIES[t['cn']] if t['k'] == 'cust' else Z.noop_action
                         for t in ts if t['k'] != 'pad')
            s = R.StructActionSerializer(''.join(map(self.fmt, ts)), BO[e['bo']], acts)
        else:
            src = f'class S_(Structured, byte_order=BO[{e["bo"]!r}]):\n'
            src += ''.join(f'    {"_" if t["k"] == "pad" else f"a{i}"}: {self.b.hint(t)}\n'
                           for i, t in enumerate(ts))
            exec(compile(src, self.mod.__name__, 'exec', dont_inherit=True), self.ns)
            s = self.ns.pop('S_').serializer
        self.newser(e, obs, s)

    def newser(self, e, obs, s):
        self.sers[e['s']] = s
        obs['nv'] = s.num_values if type(s.num_values) is int else -1

    def do_seradd(self, e, obs):
        self.newser(e, obs, self.sers[e['sa']] + self.sers[e['sb']])

    def do_sermul(self, e, obs):
        a = self.sers[e['sa']]
        self.newser(e, obs, a @ e['n'] if e['fold'] else a * e['n'])

    def do_serwbo(self, e, obs):
        self.newser(e, obs, self.sers[e['sa']].with_byte_order(BO[e['bo']]))

    def args(self, e):
        args = [make(v, self.ns) for v in e['a']]
        del R.LOG[:]
        return args

    def do_serpack(self, e, obs):
        s, a = self.sers[e['s']], self.args(e)
        b = s.prepack(None).pack(*a)
        obs['size'] = self.size(s)
        if type(b) is not bytes:
            raise TypeError(f'pack returned {type(b)}')
        obs['b'] = list(b)

    def do_serpackinto(self, e, obs):
        s, a = self.sers[e['s']], self.args(e)
        s.prepack(None).pack_into(self.bufs[e['buf']], e['off'], *a)
        obs['size'] = self.size(s)

    def do_serpackwrite(self, e, obs):
        s, a = self.sers[e['s']], self.args(e)
        s.prepack(None).pack_write(self.files[e['file']], *a)
        obs['size'] = self.size(s)

    def do_serunpackfrom(self, e, obs):
        s = self.sers[e['s']]
        u = s.preunpack(None)
        if e['off'] == 0 and e['plain']:
            vals = tuple(u.unpack(self.bufs[e['buf']]))
        elif e['off'] == 0 and e.get('noff'):
            vals = tuple(u.unpack_from(self.bufs[e['buf']]))
        else:
            vals = tuple(u.unpack_from(self.bufs[e['buf']], e['off']))
        obs['size'] = self.size(s)
        obs['vals'] = [proj(v, self.reg) for v in vals]

    def do_serunpackread(self, e, obs):
        s = self.sers[e['s']]
        vals = tuple(s.preunpack(None).unpack_read(self.files[e['file']]))
        obs['size'] = self.size(s)
        obs['vals'] = [proj(v, self.reg) for v in vals]

    def do_seek(self, e, obs):
        self.files[e['id']].seek(e['p'])


def main(inp, out):
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    sys.setrecursionlimit(3000)
    with open(inp) as f:
        scenarios = json.load(f)
    traces = []
    hangs = 0
    for sc in scenarios:
        if hangs > 2:      # enough to report; do not spend minutes on more
            traces.append('skipped')
            continue
        traces.append(Run(sc).run())
        hangs += any(e['op'] != 'drop' and e['obs']['hang'] for e in traces[-1])
    with open(out, 'w') as f:
        json.dump(traces, f, separators=(',', ':'))


if __name__ == '__main__':
    main(*sys.argv[1:3])

"""Everything a scenario's classes are built from: the public names of the
library, custom types, custom encoders, user written serializers, deciders.

Only the documented, public interface of the library is used.
"""
import math  # noqa: F401
import os
import struct
import sys
from typing import (  # noqa: F401
    Annotated, Any, Callable, ClassVar, Generic, Literal, NewType, Optional, Self, Tuple, TypeVar, Union,
)

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import structured  # noqa: E402
from structured import *  # noqa: E402,F401,F403
from structured import (  # noqa: E402
    ByteOrder, EncoderDecoder, Structured,
)
from structured.serializers import Serializer  # noqa: E402

assert os.path.realpath(structured.__file__).startswith(os.path.realpath(REPO) + os.sep), structured.__file__


# --- what the deciders, conditions and factories were asked, per event
LOG = []


# --- custom types --------------------------------------------------------------
class Cust:
    """Base for custom types: keeps what it was made from."""

    def __init__(self, w):
        LOG.append(('#cust', type(self).__name__, w))
        self._init(w)

    def _init(self, w):
        self.w = w

    @classmethod
    def quiet(cls, w):
        new = cls.__new__(cls)
        new._init(w)
        return new

    def __eq__(self, other):
        if type(other) is not type(self):
            return NotImplemented
        return self.w == other.w

    def __hash__(self):
        return hash(self.w)

    def __repr__(self):
        return f'{type(self).__name__}~{self.w!r}'


class MyInt(Cust):
    def __index__(self):
        return self.w


class OtherInt(Cust):
    def __index__(self):
        return self.w


class MyFloat(Cust):
    def __float__(self):
        return self.w


class MyFlag(Cust):
    def __bool__(self):
        return bool(self.w)


class Even(Cust):
    def _init(self, w):
        if w % 2:
            raise ValueError('odd')
        self.w = w

    def __index__(self):
        return self.w


class MyBytes(bytes):
    def __new__(cls, w):
        LOG.append(('#cust', cls.__name__, w))
        new = super().__new__(cls, w)
        new.w = w
        return new

    @classmethod
    def quiet(cls, w):
        new = bytes.__new__(cls, w)
        new.w = w
        return new


CUSTS = {c.__name__: c for c in (MyInt, OtherInt, MyFloat, MyFlag, Even, MyBytes)}


def factory(cls):
    """A factory function for a custom type (for SerializeAs.with_factory)."""
    def make(w):
        return cls(w)
    return make


FACTORIES = {n: factory(c) for n, c in CUSTS.items()}


# --- custom encoders --------------------------------------------------------------
class RevCodec(EncoderDecoder):
    @classmethod
    def encode(cls, strng):
        return strng.encode('utf8')[::-1]

    @classmethod
    def decode(cls, byts):
        return byts[::-1].decode('utf8')


class XorCodec(EncoderDecoder):
    __hash__ = None     # instances cannot be hashed

    @classmethod
    def encode(cls, strng):
        return bytes(255 - b for b in strng.encode('latin-1'))

    @classmethod
    def decode(cls, byts):
        return bytes(255 - b for b in byts).decode('latin-1')


# --- user written serializers -------------------------------------------------------
class VarInt(Serializer):
    """LEB128, written to the documented Serializer protocol."""

    num_values = 1

    def __init__(self):
        self.size = 0

    def prepack(self, partial_object):
        return VarInt() if BUSY['on'] and partial_object is not None else self

    def preunpack(self, partial_object):
        return VarInt() if BUSY['on'] and partial_object is not None else self

    @staticmethod
    def _encode(n):
        if type(n) is not int or n < 0 or n >= 1 << 24:
            raise ValueError('not a varint')
        out = bytearray()
        while True:
            n, b = n >> 7, n & 127
            if not n:
                out.append(b)
                return bytes(out)
            out.append(128 | b)

    def pack(self, *values):
        data = self._encode(*values)
        self.size = len(data)
        return data

    def pack_into(self, buffer, offset, *values):
        data = self._encode(*values)
        if offset + len(data) > len(buffer):
            raise ValueError('no room')
        buffer[offset:offset + len(data)] = self._like(buffer, data)
        self.size = len(data)

    @staticmethod
    def _like(buffer, data):
        # array.array only takes slices of its own kind
        return type(buffer)('B', data) if type(buffer).__name__ == 'array' else data

    def pack_write(self, writable, *values):
        writable.write(self.pack(*values))

    def unpack(self, buffer):
        return self.unpack_from(buffer, 0)

    def unpack_from(self, buffer, offset=0):
        n = shift = i = 0
        while True:
            if i > 3:
                raise ValueError('varint too long')
            if offset + i >= len(buffer):
                raise ValueError('varint truncated')
            b = buffer[offset + i]
            i += 1
            n |= (b & 127) << shift
            shift += 7
            if b < 128:
                self.size = i
                return iter((n,))

    def unpack_read(self, readable):
        data = b''
        while len(data) < 4:
            b = readable.read(1)
            data += b
            if not b or b[0] < 128:
                break
        return self.unpack_from(data, 0)


class VarInts(Serializer):
    """Several LEB128 numbers, joining with others of its kind."""

    def __init__(self, n):
        self.num_values, self.size = n, 0

    def __add__(self, other):
        if type(other) is VarInts:
            return VarInts(self.num_values + other.num_values)
        return super().__add__(other)

    def pack(self, *values):
        if len(values) != self.num_values:
            raise ValueError('wrong number of values')
        data = b''.join(map(VarInt._encode, values))
        self.size = len(data)
        return data

    def pack_into(self, buffer, offset, *values):
        size = 0
        one = VarInt()
        for v in values:
            one.pack_into(buffer, offset + size, v)
            size += one.size
        if len(values) != self.num_values:
            raise ValueError('wrong number of values')
        self.size = size

    def pack_write(self, writable, *values):
        writable.write(self.pack(*values))

    def unpack(self, buffer):
        return self.unpack_from(buffer, 0)

    def unpack_from(self, buffer, offset=0):
        size = 0
        one = VarInt()
        for _ in range(self.num_values):
            yield from one.unpack_from(buffer, offset + size)
            size += one.size
        self.size = size

    def unpack_read(self, readable):
        size = 0
        one = VarInt()
        for _ in range(self.num_values):
            yield from one.unpack_read(readable)
            size += one.size
        self.size = size


class U24(Serializer):
    """A three byte number that follows the byte order."""

    num_values = 1
    size = 3

    def __init__(self, order='little'):
        self.order = order

    def with_byte_order(self, byte_order):
        return type(self)('big' if byte_order in (ByteOrder.BE, ByteOrder.NETWORK) else 'little')

    def pack(self, *values):
        (n,) = values
        if type(n) is not int:
            raise TypeError('not a number')
        return int.to_bytes(n, 3, self.order)

    def pack_into(self, buffer, offset, *values):
        struct.pack_into('3s', buffer, offset, self.pack(*values))

    def pack_write(self, writable, *values):
        writable.write(self.pack(*values))

    def unpack(self, buffer):
        return self.unpack_from(buffer, 0)

    def unpack_from(self, buffer, offset=0):
        return [int.from_bytes(struct.unpack_from('3s', buffer, offset)[0], self.order)]

    def unpack_read(self, readable):
        return self.unpack(readable.read(3))


class Rel(Serializer):
    """A byte that has to do with an attribute before it; `base` is known for one object only."""

    num_values = 1
    size = 1

    def __init__(self, expr, base=None):
        self.expr, self.base = expr, base

    def bound(self, partial_object):
        n = evaluate(self.expr, partial_object)
        if type(n) is not int:
            raise TypeError('not a number')
        return type(self)(self.expr, n % 256 if n >= 0 else 0)

    def put(self, n):
        return n

    def got(self, n):
        return n

    def checked(self, n):
        if type(n) is not int or not 0 <= n < 256:
            raise ValueError('not a byte')
        return n

    def differs(self, n):
        if n % 8 == self.base % 8:
            raise ValueError('not here')
        return n

    def pack(self, *values):
        (n,) = values
        return bytes([self.put(self.checked(n))])

    def pack_into(self, buffer, offset, *values):
        struct.pack_into('1s', buffer, offset, self.pack(*values))

    def pack_write(self, writable, *values):
        writable.write(self.pack(*values))

    def unpack(self, buffer):
        return self.unpack_from(buffer, 0)

    def unpack_from(self, buffer, offset=0):
        return iter((self.got(struct.unpack_from('1s', buffer, offset)[0][0]),))

    def unpack_read(self, readable):
        return self.unpack(readable.read(1))


class RelR(Rel):
    def preunpack(self, partial_object):
        return self.bound(partial_object)

    def got(self, n):
        return self.differs(n)


class RelW(Rel):
    def prepack(self, partial_object):
        return self.bound(partial_object)

    def put(self, n):
        return self.differs(n)


class RelRW(Rel):
    def prepack(self, partial_object):
        return self.bound(partial_object)

    def preunpack(self, partial_object):
        return self.bound(partial_object)

    def put(self, n):
        return (n + self.base) % 256

    def got(self, n):
        return (n - self.base) % 256


REL = {'r': RelR, 'w': RelW, 'rw': RelRW}


# --- deciders ---------------------------------------------------------------------------
NAMES = []      # attribute names of the running scenario
_MISSING = object()


def whole(v):
    if type(v) not in (int, bool):
        raise TypeError('not an integer')
    return v


def evaluate(x, obj):
    """Evaluate an expression of the specification on a real (partial) object."""
    k = x['x']
    if k == 'attr':
        return getattr(obj, x['n'])
    if k == 'const':
        return x['py']
    if k == 'dot':
        return getattr(evaluate(x['a'], obj), x['n'])
    if k == 'at':
        return evaluate(x['a'], obj)[x['i']]
    if k == 'len':
        return len(evaluate(x['a'], obj))
    if k == 'mod':
        return whole(evaluate(x['a'], obj)) % x['c']
    if k == 'ge':
        return whole(evaluate(x['a'], obj)) >= x['c']
    if k == 'eq':
        return evaluate(x['a'], obj) == x['py']
    if k == 'not':
        return not evaluate(x['a'], obj)
    if k == 'and':
        return evaluate(x['a'], obj) and evaluate(x['b'], obj)
    if k == 'or':
        return evaluate(x['a'], obj) or evaluate(x['b'], obj)
    if k == 'guard':
        if not evaluate(x['a'], obj):
            raise LookupError('decider refuses')
        return evaluate(x['b'], obj)
    raise AssertionError(k)


# Deciders and post-init hooks may use the library themselves, on the objects below and
# on others of the class.
BUSY = {'on': False, 'objs': {}, 'now': False}


def below(v, depth=3):
    if isinstance(v, Structured):
        return [v]
    if isinstance(v, (list, tuple)) and depth:
        return [o for x in v[:3] for o in below(x, depth - 1)]
    return []


def busy(obj):
    if not BUSY['on'] or BUSY['now']:
        return
    BUSY['now'] = True
    n = len(LOG)
    try:
        todo = [o for a in NAMES for o in below(getattr(obj, a, None))][:4] + list(BUSY['objs'].values())[-3:]
        for o in [obj] * isinstance(obj, Structured) + todo:
            try:
                type(o).create_unpack(o.pack())
            except Exception:
                pass
    finally:
        BUSY['now'] = False
        del LOG[n:]


def decider(label, expr):
    def decide(obj):
        busy(obj)
        seen = []
        for n in NAMES:
            v = getattr(obj, n, _MISSING)
            if v is not _MISSING:
                seen.append((n, v))
        LOG.append((label, seen))
        return evaluate(expr, obj)
    return decide

"""Primitive serializers: format, round trip, range and type checks"""
import io
from harness.worker import Suite
from harness import gen
from harness.models import pm
from proofmarshal.serialize import (
    SerBool, UInt8, UInt16, UInt32, UInt64, FixedBytes, VarBytes, Digest,
    DeserializationError, TruncationError, SerializerTypeError, SerializerValueError,
    BytesSerializationContext, BytesDeserializationContext, StreamSerializationContext, StreamDeserializationContext)
from proofmarshal.bits import Bits, BitsSerializer

RULE = ('random values of every primitive type (edges of every range, powers of two, lengths around the limits of the '
        'declared type) checked for acceptance against a model of the declared range, encoded against an independent '
        'encoder, decoded back, alone and in sequences on one stream. Non-trivial: distinct (type, encoding).')


class MyInt(int):
    pass


class MyBytes(bytes):
    pass


def make_type(rng):
    """(serializer, kind, parameters)"""
    r = rng.randrange(6)
    if r == 0:
        return SerBool, ('bool',)
    if r == 1:
        cls, bits = rng.choice(((UInt8, 8), (UInt16, 16), (UInt32, 32), (UInt64, 64)))
        return cls, ('uint', bits)
    if r == 2:
        n = gen.size(rng, 1100, 20)
        return FixedBytes(n), ('fixed', n)
    if r == 3:
        n = max(1, gen.size(rng, 1100, 20))
        return VarBytes(n), ('var', 0, n)
    if r == 4:
        a = gen.size(rng, 600, 20)
        b = a + 1 + gen.size(rng, 400, 10)
        return VarBytes(a, b), ('var', a, b)
    return Digest, ('fixed', 32)


def good_value(rng, t):
    if t[0] == 'bool':
        return rng.random() < 0.5
    if t[0] == 'uint':
        return gen.int_in(rng, 0, 2**t[1] - 1)
    if t[0] == 'fixed':
        return gen.blob(rng, t[1])
    return gen.blob(rng, rng.choice((t[1], t[2], gen.int_in(rng, t[1], t[2]))))


def encode(t, v):
    if t[0] == 'bool':
        return b'\xff' if v else b'\x00'
    if t[0] == 'uint':
        return pm.varuint(v)
    if t[0] == 'fixed':
        return v
    return pm.varuint(len(v)) + v


def verdict(t, v):
    """None if acceptable, else the exception type documented for it"""
    if t[0] == 'bool':
        return None if type(v) is bool else SerializerTypeError
    if t[0] == 'uint':
        if type(v) is not int:
            return SerializerTypeError
        return None if 0 <= v < 2**t[1] else SerializerValueError
    if type(v) is not bytes:
        return SerializerTypeError
    if t[0] == 'fixed':
        return None if len(v) == t[1] else SerializerValueError
    return None if t[1] <= len(v) <= t[2] else SerializerValueError


def any_value(rng, t):
    r = rng.random()
    if r < 0.4:
        return good_value(rng, t)
    if r < 0.7:
        if t[0] == 'uint':
            return rng.choice((-1, 2**t[1], 2**t[1] + 1, -2**t[1], gen.int_in(rng, -2**70, 2**70), rng.choice((1, -1)) << rng.choice((14284, 14285, 14300, 20000))))
        if t[0] == 'fixed':
            return gen.blob(rng, max(0, t[1] + rng.choice((-1, 1, 1, -2))))
        if t[0] == 'var':
            return gen.blob(rng, max(0, rng.choice((t[1] - 1, t[2] + 1, t[2] + 2))))
    return rng.choice((None, True, False, 0, 1, 1.0, 'x', b'', b'x', bytearray(32), MyInt(1), MyBytes(b'x' * 32), (), [],
                       object(), memoryview(b'x' * 32), int, bytes(32)))


def show(v):
    if isinstance(v, int):
        v = hex(v)
    return (type(v).__name__ + repr(v))[:60]


def single(rng, mon, i):
    for _ in range(12):
        cls, t = make_type(rng)
        v = any_value(rng, t)
        want = verdict(t, v)
        if want is None:
            mon.call('%r check_instance' % (t,), cls.check_instance, v)
            enc = encode(t, v)
            mon.same(mon.call('%r serialize' % (t,), cls.serialize, v), enc, '%r encoding' % (t,))
            back = mon.call('%r deserialize' % (t,), cls.deserialize, enc)
            mon.same(back, v, '%r round trip' % (t,))
            mon.state('encoded', repr(t).encode() + enc)
        else:
            mon.raises('%r check_instance(%r)' % (t, show(v)), want, cls.check_instance, v)
            mon.state('refused', (t, show(v)))


def sequence(rng, mon, i):
    """A whole record on one stream"""
    n = rng.randint(1, 12)
    rec = []
    for _ in range(n):
        cls, t = make_type(rng)
        rec.append((cls, t, good_value(rng, t)))
    if rng.random() < 0.3:
        m = tuple(rng.randrange(2) for _ in range(rng.randint(0, 30)))
        rec.insert(rng.randint(0, n), (BitsSerializer, None, m))
    want = b''.join(pm.enc_bits(v) if t is None else encode(t, v) for _, t, v in rec)
    if rng.random() < 0.5:
        ctx = BytesSerializationContext()
        get = ctx.getbytes
    else:
        fd = io.BytesIO()
        ctx = StreamSerializationContext(fd)
        get = fd.getvalue
    for cls, t, v in rec:
        v = Bits(v) if t is None else v
        if rng.random() < 0.5:
            ctx.write_obj(v, cls)
        else:
            cls.ctx_serialize(v, ctx)
    mon.same(get(), want, 'encoding of a record')
    buf = want + gen.blob(rng, rng.choice((0, 0, 3)))
    fd = io.BytesIO(buf)
    ctx = BytesDeserializationContext(buf) if rng.random() < 0.5 else StreamDeserializationContext(fd)
    for cls, t, v in rec:
        r = mon.call('read_obj', ctx.read_obj, cls) if rng.random() < 0.5 else mon.call('ctx_deserialize', cls.ctx_deserialize, ctx)
        if t is None:
            mon.eq(tuple(r), v, 'bits in a record')
        else:
            mon.same(r, v, 'value read back from a record', t)
    mon.eq(ctx.fd.tell(), len(want), 'bytes consumed')
    mon.state('record', want)


def raw(rng, mon, i):
    """The context operations themselves"""
    for _ in range(8):
        v = gen.int_in(rng, 0, 2**rng.choice((8, 16, 64, 300, rng.choice((600, 1200, 4000, 15000, 21000)))))
        ctx = BytesSerializationContext()
        ctx.write_varuint(v)
        mon.same(ctx.getbytes(), pm.varuint(v), 'write_varuint(0x%x)' % v)
        mon.same(BytesDeserializationContext(ctx.getbytes()).read_varuint(), v, 'read_varuint')
        mon.state('varuint', pm.varuint(v))
        # out of range for the declared type
        bits = rng.choice((8, 16, 32, 64))
        cls = {8: UInt8, 16: UInt16, 32: UInt32, 64: UInt64}[bits]
        if v < 2**bits:
            mon.same(cls.deserialize(pm.varuint(v)), v, 'in range for %d bits' % bits)
        else:
            mon.raises('0x%x for UInt%d' % (v, bits), DeserializationError, cls.deserialize, pm.varuint(v))
    for bad in (None, 1, 0, 'True', b'\xff', 1.0):
        mon.raises('write_bool(%r)' % (bad,), TypeError, BytesSerializationContext().write_bool, bad)
    for b in range(256) if i == 0 else (rng.randrange(256),):
        if b in (0, 255):
            mon.same(SerBool.deserialize(bytes([b])), b == 255, 'bool')
        else:
            mon.raises('bool byte %d' % b, DeserializationError, SerBool.deserialize, bytes([b]))
    # bad declarations
    for args, exc in (((-1,), ValueError), ((1.0,), TypeError), (('1',), TypeError)):
        mon.raises('FixedBytes%r' % (args,), exc, FixedBytes, *args)
    for args, exc in (((0,), ValueError), ((-1,), ValueError), ((5, 5), ValueError), ((6, 5), ValueError), ((-1, 5), ValueError),
                      ((1.0,), TypeError), (('a', 'b'), TypeError)):
        mon.raises('VarBytes%r' % (args,), exc, VarBytes, *args)


def declared(rng, mon, i):
    """Types of one kind whose declared lengths are related, all in use together, some of them large"""
    pairs = set()
    for _ in range(4):
        a = rng.choice((0, 1, 2, 31, 32, 33, 255, 256, 300, rng.randrange(1000)))
        for d in (0, 1, 32, 128, 256, 1 << rng.randrange(17), 65536, 100000):
            pairs.add(a + d)
    sizes = sorted(pairs)
    rng.shuffle(sizes)
    sizes = sizes[:14]
    types = [(FixedBytes(n), ('fixed', n)) for n in sizes]
    for n in sizes:
        types.append((VarBytes(n + 1), ('var', 0, n + 1)))
        m = rng.choice(sizes)
        if m < n:
            types.append((VarBytes(m, n), ('var', m, n)))
    rng.shuffle(types)
    base = rng.randbytes(max(sizes) + 3)
    for cls, t in types:
        lo, hi = (t[1], t[1]) if t[0] == 'fixed' else t[1:]
        for n in {lo, hi, lo - 1, hi + 1, (lo + hi) // 2, rng.choice(sizes)}:
            if n < 0:
                continue
            v = base[:n]
            if lo <= n <= hi:
                mon.call('%r check_instance' % (t,), cls.check_instance, v)
                enc = encode(t, v)
                mon.check(cls.serialize(v) == enc, '%r encoding of %d bytes' % (t, n))
                mon.check(cls.deserialize(enc) == v, '%r round trip of %d bytes' % (t, n))
            else:
                mon.raises('%r check_instance of %d bytes' % (t, n), verdict(t, v), cls.check_instance, v)
                mon.raises('%r deserialize of %d bytes' % (t, n), DeserializationError, cls.deserialize, v if t[0] == 'fixed' else pm.varuint(n) + v)
    mon.state('declared', repr(sorted(t for _, t in types)))


SUITES = [Suite('declared lengths', declared, 160, 1200), Suite('single values', single, 30000, 80000), Suite('records', sequence, 18000, 50000), Suite('contexts', raw, 4800, 12000)]

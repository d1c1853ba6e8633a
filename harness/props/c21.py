"""Malformed wire data: refused cleanly, or read exactly as the format says"""
import io, tracemalloc
from harness.worker import Suite
from harness import gen
from harness.models import btc
from bitcoin.core import COutPoint, CTxIn, CTxOut, CTransaction, CMutableTransaction, CBlockHeader, CBlock
from bitcoin.core.serialize import (SerializationError, SerializationTruncationError, DeserializationExtraDataError, MAX_SIZE,
                                    VarIntSerializer, BytesSerializer, VarStringSerializer, uint256VectorSerializer,
                                    intVectorSerialzer, ser_read)

RULE = ('every strict prefix of valid encodings, trailing bytes, damaged encodings and oversized lengths, decoded beside an '
        'independent reader: same value or a serialization error, nothing else; memory bounded by the data supplied. '
        'Non-trivial: distinct damaged inputs, by verdict.')


def gen_one(rng):
    """(class, bytes, reference reader)"""
    r = rng.randrange(7)
    if r == 0:
        return COutPoint, btc.MOut(gen.blob(rng, 32), gen.int_in(rng, 0, btc.MASK32)).ser(), lambda R: (R.take(32), R.int(4))
    if r == 1:
        h, n, s, q = btc.gen_vin(rng, 200)
        return CTxIn, h + btc.le(n, 4) + btc.compact(len(s)) + s + btc.le(q, 4), lambda R: (R.take(32), R.int(4), R.var(), R.int(4))
    if r == 2:
        v, s = btc.gen_vout(rng, 200)
        return CTxOut, btc.le(v, 8, True) + btc.compact(len(s)) + s, lambda R: (R.int(8, True), R.var())
    if r in (3, 4):
        return rng.choice((CTransaction, CMutableTransaction)), btc.gen_tx(rng, rng.randint(0, 4), rng.randint(0, 4), 120).ser(), lambda R: R.tx()
    if r == 5:
        return CBlockHeader, btc.gen_header(rng).ser(), lambda R: R.header()
    return CBlock, btc.gen_block(rng, rng.randint(0, 4)).ser(), lambda R: R.block()


def reencode(cls, v):
    if cls is COutPoint:
        return v[0] + btc.le(v[1], 4)
    if cls is CTxIn:
        return v[0] + btc.le(v[1], 4) + btc.compact(len(v[2])) + v[2] + btc.le(v[3], 4)
    if cls is CTxOut:
        return btc.le(v[0], 8, True) + btc.compact(len(v[1])) + v[1]
    return v.ser()


def judge(rng, mon, cls, raw, read, kind):
    R = btc.Reader(raw)
    try:
        v = read(R)
    except EOFError:
        v = None
    if v is None:
        e = mon.raises('%s of %d bad bytes' % (cls.__name__, len(raw)), SerializationError, cls.deserialize, raw)
        mon.raises('with padding allowed', SerializationError, cls.deserialize, raw, allow_padding=True)
        mon.check(not isinstance(e, DeserializationExtraDataError), 'truncated data reported as extra data')
        mon.state('refused', raw)
        return
    want = reencode(cls, v)
    if R.pos == len(raw):
        o = mon.call('deserialize', cls.deserialize, raw)
        mon.same(o.serialize(), want, '%s read from damaged bytes' % cls.__name__, raw.hex()[:300])
        mon.state('read', raw)
    else:
        e = mon.raises('%s with extra data' % cls.__name__, DeserializationExtraDataError, cls.deserialize, raw)
        mon.same(e.padding, raw[R.pos:], 'extra data reported')
        mon.same(e.obj.serialize(), want, 'object reported with the extra data')
        o = mon.call('allow_padding', cls.deserialize, raw, allow_padding=True)
        mon.same(o.serialize(), want, 'object read with padding allowed')
        mon.state('extra', raw)


def prefixes(rng, mon, i):
    cls, raw, read = gen_one(rng)
    ks = range(len(raw)) if len(raw) < 200 else sorted(rng.sample(range(len(raw)), 200))
    for k in ks:
        mon.raises('%s of %d of %d bytes' % (cls.__name__, k, len(raw)), SerializationTruncationError, cls.deserialize, raw[:k])
        mon.event('prefixes')
    mon.state('truncated', raw)
    for _ in range(4):
        judge(rng, mon, cls, raw + gen.blob(rng, rng.choice((1, 1, 2, 32, 100))), read, 'extra')
    if rng.random() < 0.05:
        n = rng.choice((255, 4096, 8192, 65535, 65536, 65537, 100000, 300000))
        judge(rng, mon, cls, raw + rng.choice((bytes(n), rng.randbytes(n))), read, 'much extra')


def damaged(rng, mon, i):
    cls, raw, read = gen_one(rng)
    for _ in range(25):
        judge(rng, mon, cls, gen.mutate(rng, raw), read, 'damaged')
    judge(rng, mon, cls, gen.data(rng, 200, 80), read, 'random')


def lengths(rng, mon, i):
    """Lengths that no data backs"""
    for _ in range(10):
        n = rng.choice((MAX_SIZE, MAX_SIZE + 1, MAX_SIZE - 1, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, gen.int_in(rng, 300, 2**64 - 1)))
        have = gen.blob(rng, rng.choice((0, 1, 10, 252)))
        raw = btc.compact(n) + have
        for c in (BytesSerializer, VarStringSerializer, uint256VectorSerializer, intVectorSerialzer):
            e = mon.raises('%s of length %d' % (c.__name__, n), SerializationError, c.deserialize, raw)
        mon.state('length', n)
        v = b'\x01' * 8 + raw
        mon.raises('output with a script of length %d' % n, SerializationError, CTxOut.deserialize, v)
        mon.raises('input with a script of length %d' % n, SerializationError, CTxIn.deserialize, bytes(36) + raw)
        mon.raises('transaction with %d inputs' % n, SerializationError, CTransaction.deserialize, bytes(4) + raw)
        mon.raises('transaction with %d outputs' % n, SerializationError, CTransaction.deserialize, bytes(4) + b'\x00' + raw)
        mon.raises('block with %d transactions' % n, SerializationError, CBlock.deserialize, bytes(80) + raw)
    for k in (MAX_SIZE + 1, 2**40, 2**64 - 1):
        f = io.BytesIO(b'abc')
        mon.raises('read of %d' % k, SerializationError, ser_read, f, k)


class Counting(io.BytesIO):
    asked = 0

    def read(self, n=-1):
        Counting.asked = max(Counting.asked, n if n is not None and n >= 0 else 1 << 62)
        return super().read(n)


def memory(rng, mon, i):
    """What a hostile length makes the decoder ask for and allocate"""
    n = rng.choice((MAX_SIZE + 1, 2**32, 2**62, 2**64 - 1, gen.int_in(rng, MAX_SIZE + 1, 2**64 - 1), MAX_SIZE, MAX_SIZE - 1, 2**20, 2**22, 2**24,
                    gen.int_in(rng, 2**20, MAX_SIZE)))
    dec, raw = rng.choice(((CTransaction, bytes(4) + btc.compact(n)), (CTransaction, bytes(4) + b'\x01' + bytes(36) + btc.compact(n)),
                           (CMutableTransaction, bytes(4) + b'\x00\x01' + bytes(8) + btc.compact(n)), (CMutableTransaction, bytes(5) + btc.compact(n)),
                           (CBlock, bytes(80) + btc.compact(n)), (CTxIn, bytes(36) + btc.compact(n)), (CTxOut, bytes(8) + btc.compact(n)),
                           (uint256VectorSerializer, btc.compact(n)), (intVectorSerialzer, btc.compact(n)), (BytesSerializer, btc.compact(n)),
                           (VarStringSerializer, btc.compact(n))))
    raw += bytes(rng.choice((0, 100, 3000)))
    tracemalloc.start()
    try:
        Counting.asked = 0
        mon.raises('hostile length', SerializationError, dec.stream_deserialize, Counting(raw))
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    mon.check(Counting.asked <= MAX_SIZE, 'asked the stream for %d bytes' % Counting.asked)
    mon.check(peak < 4 << 20, 'allocated %d bytes for %d bytes of input' % (peak, len(raw)))
    mon.event('bytes allocated', peak)
    mon.state('hostile', raw)


def bound(rng, mon, i):
    """The largest length that is allowed at all"""
    for n, ok in ((MAX_SIZE, True), (MAX_SIZE + 1, False)):
        raw = btc.compact(n) + bytes(n)
        if ok:
            mon.eq(len(mon.call('BytesSerializer at the bound', BytesSerializer.deserialize, raw)), n, 'length read')
        else:
            mon.raises('BytesSerializer over the bound', SerializationError, BytesSerializer.deserialize, raw)
        mon.state('bound', n)


# memory first: what takes too much of it takes long as well
SUITES = [Suite('memory', memory, 1500, 3000), Suite('prefixes', prefixes, 4800, 15000), Suite('damaged', damaged, 9600, 40000),
          Suite('lengths', lengths, 960, 3000), Suite('bound', bound, 1, 1, serial=True)]

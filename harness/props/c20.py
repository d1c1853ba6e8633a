"""Bitcoin wire codec against an independent encoder"""
import io
from harness.worker import Suite
from harness import gen
from harness.models import btc
from bitcoin.core import (COutPoint, CTxIn, CTxOut, CTransaction, CBlockHeader, CBlock, CMutableOutPoint, CMutableTxIn,
                          CMutableTxOut, CMutableTransaction)
from bitcoin.core.script import CScript
from bitcoin.core.serialize import (VarIntSerializer, BytesSerializer, VectorSerializer, uint256VectorSerializer,
                                    intVectorSerialzer, VarStringSerializer)

RULE = ('random outpoints, inputs, outputs, transactions, headers, blocks and vectors: bytes written and values read against an '
        'independent encoder, alone and one after another in one stream. Non-trivial: distinct encodings.')


def stream(mon, cls_list, raws, check):
    """Decode several objects from one stream"""
    f = io.BytesIO(b''.join(raws) + b'tail')
    pos = 0
    for cls, raw in zip(cls_list, raws):
        o = mon.call('stream_deserialize', cls.stream_deserialize, f)
        pos += len(raw)
        mon.eq(f.tell(), pos, '%s: bytes consumed' % cls.__name__)
        check(cls, raw, o)
    mon.eq(f.read(), b'tail', 'rest of the stream')


def fields_tx(mon, t, m):
    mon.same(t.nVersion, m.version, 'nVersion')
    mon.same(t.nLockTime, m.locktime, 'nLockTime')
    mon.eq(len(t.vin), len(m.vin), 'number of inputs')
    mon.eq(len(t.vout), len(m.vout), 'number of outputs')
    for a, (h, n, s, q) in zip(t.vin, m.vin):
        mon.check(a.prevout.hash == h and a.prevout.n == n and bytes(a.scriptSig) == s and a.nSequence == q, 'input', repr(a))
        mon.check(isinstance(a.scriptSig, CScript), 'scriptSig is no script')
    for a, (v, s) in zip(t.vout, m.vout):
        mon.check(a.nValue == v and bytes(a.scriptPubKey) == s, 'output', repr(a))
        mon.check(isinstance(a.scriptPubKey, CScript), 'scriptPubKey is no script')


def fields_header(mon, o, m):
    mon.eq((o.nVersion, o.hashPrevBlock, o.hashMerkleRoot, o.nTime, o.nBits, o.nNonce), m.args(), 'header fields')


def both(mon, cls, o, raw):
    mon.same(mon.call('serialize', o.serialize), raw, cls.__name__ + ': serialized')
    mon.same(mon.call('serialize', o.serialize), raw, cls.__name__ + ': serialized again')
    f = io.BytesIO()
    o.stream_serialize(f)
    mon.same(f.getvalue(), raw, cls.__name__ + ': stream_serialize')
    back = mon.call(cls.__name__ + '.deserialize', cls.deserialize, raw)
    mon.check(type(back) is cls, 'type read', type(back).__name__)
    mon.check(back == o and o == back and not (back != o), cls.__name__ + ': read back is not equal')
    mon.check(hash(back) == hash(o), cls.__name__ + ': hash of equal objects')
    mon.same(back.serialize(), raw, cls.__name__ + ': serialized after reading')
    mon.state(cls.__name__, raw)
    return back


def parts(rng, mon, i):
    for _ in range(10):
        op = btc.MOut(gen.blob(rng, 32), gen.int_in(rng, 0, btc.MASK32))
        o = mon.call('COutPoint', rng.choice((COutPoint, CMutableOutPoint)), op.h, op.n)
        b = both(mon, o.__class__, o, op.ser())
        mon.check(b.hash == op.h and b.n == op.n, 'outpoint fields')
        null = op.h == bytes(32) and op.n == btc.MASK32
        mon.same(b.is_null(), null, 'is_null')
        h, n, s, q = btc.gen_vin(rng, 70000 if rng.random() < 0.05 else 300)
        raw = h + btc.le(n, 4) + btc.compact(len(s)) + s + btc.le(q, 4)
        mk = (CMutableTxIn, CMutableOutPoint) if rng.random() < 0.4 else (CTxIn, COutPoint)
        b = both(mon, mk[0], mk[0](mk[1](h, n), CScript(s), q), raw)
        mon.check(b.prevout.hash == h and b.prevout.n == n and bytes(b.scriptSig) == s and b.nSequence == q, 'input fields')
        mon.same(b.is_final(), q == btc.MASK32, 'is_final')
        v, s = btc.gen_vout(rng, 70000 if rng.random() < 0.05 else 300)
        raw = btc.le(v, 8, True) + btc.compact(len(s)) + s
        c = CMutableTxOut if rng.random() < 0.4 else CTxOut
        b = both(mon, c, c(v, CScript(s)), raw)
        mon.check(b.nValue == v and bytes(b.scriptPubKey) == s, 'output fields')


def txs(rng, mon, i):
    ms = [btc.gen_tx(rng) for _ in range(rng.choice((1, 2, 3)))]
    for m in ms:
        t = m.real()
        b = both(mon, CTransaction, t, m.ser())
        fields_tx(mon, b, m)
        fields_tx(mon, t, m)
        mu = m.real_mutable()
        b = both(mon, CMutableTransaction, mu, m.ser())
        fields_tx(mon, b, m)
        mon.check(mu == t and t == mu and not (mu != t), 'mutable and immutable transactions differ')
        mon.same(t.is_coinbase(), len(m.vin) == 1 and m.vin[0][:2] == (bytes(32), btc.MASK32), 'is_coinbase')
        o = btc.change_tx(rng, m)
        mon.check(o.real() != t and not (o.real() == t) and o.real() != mu, 'transactions with one field changed are equal', o.ser().hex())
    stream(mon, [rng.choice((CTransaction, CMutableTransaction)) for _ in ms], [m.ser() for m in ms],
           lambda c, raw, o: mon.same(o.serialize(), raw, 'from a stream'))


def coinbase(rng, mon, i):
    """Near coinbases"""
    for _ in range(10):
        m = btc.gen_tx(rng, rng.choice((0, 1, 1, 1, 2)), 1, 40)
        for k in range(len(m.vin)):
            if rng.random() < 0.7:
                h, n = bytes(32), btc.MASK32
                r = rng.random()
                if r < 0.2:
                    n = rng.choice((0, btc.MASK32 - 1, 0x7fffffff))
                elif r < 0.5:
                    b = bytearray(32)
                    b[rng.randrange(32)] = rng.choice((1, 255))
                    h = bytes(b)
                m.vin[k] = (h, n) + m.vin[k][2:]
        want = len(m.vin) == 1 and m.vin[0][:2] == (bytes(32), btc.MASK32)
        mon.same(m.real().is_coinbase(), want, 'is_coinbase', m.ser().hex())
        mon.same(m.real_mutable().is_coinbase(), want, 'is_coinbase', m.ser().hex())
        mon.state('coinbase', (want, m.ser()))


def blocks(rng, mon, i):
    m = btc.gen_block(rng)
    h = CBlockHeader(*m.header.args())
    b = both(mon, CBlockHeader, h, m.header.ser())
    fields_header(mon, b, m.header)
    bl = m.real()
    b = both(mon, CBlock, bl, m.ser())
    fields_header(mon, b, m.header)
    fields_header(mon, b.get_header(), m.header)
    mon.check(type(b.get_header()) is CBlockHeader, 'get_header')
    mon.eq(len(b.vtx), len(m.txs), 'number of transactions')
    for t, mt in zip(b.vtx, m.txs):
        mon.same(t.serialize(), mt.ser(), 'transaction in a block')
    mm = btc.MBlock(m.header, [t for t in m.txs])
    if mm.txs:
        k = rng.randrange(len(mm.txs))
        mm.txs[k] = btc.change_tx(rng, mm.txs[k])
        mon.check(mm.real() != bl, 'blocks with different transactions are equal')
    stream(mon, [CBlockHeader, CBlock, CBlock], [m.header.ser(), m.ser(), m.ser()],
           lambda c, raw, o: mon.same(o.serialize(), raw, 'from a stream'))


def ser(cls, *a):
    return cls.serialize(*a)


def vectors(rng, mon, i):
    for _ in range(10):
        n = gen.int_in(rng, 0, 2**64 - 1)
        raw = btc.compact(n)
        mon.same(VarIntSerializer.serialize(n), raw, 'compact size of %d' % n)
        mon.same(VarIntSerializer.deserialize(raw), n, 'compact size read')
        mon.state('compact', n)
        st, _ = mon.outcome('negative compact size', VarIntSerializer.serialize, -1 - gen.int_in(rng, 0, 2**64))
        mon.check(st == 'error', 'a negative compact size was written')
        st, _ = mon.outcome('huge compact size', VarIntSerializer.serialize, 2**64 + gen.int_in(rng, 0, 2**64))
        mon.check(st == 'error', 'a compact size over 64 bits was written')
    s = gen.data(rng, 70000, 300)
    raw = btc.compact(len(s)) + s
    for c in (BytesSerializer, VarStringSerializer):
        mon.same(c.serialize(s), raw, c.__name__)
        mon.same(c.deserialize(raw), s, c.__name__ + ' read')
    l = [gen.blob(rng, 32) for _ in range(gen.size(rng, 600, 6))]
    raw = btc.compact(len(l)) + b''.join(l)
    mon.same(uint256VectorSerializer.serialize(l), raw, 'uint256 vector')
    mon.same(uint256VectorSerializer.deserialize(raw), l, 'uint256 vector read')
    l = [gen.int_in(rng, -2**31, 2**31 - 1) for _ in range(gen.size(rng, 600, 6))]
    raw = btc.compact(len(l)) + b''.join(btc.le(v, 4, True) for v in l)
    mon.same(intVectorSerialzer.serialize(l), raw, 'int vector')
    mon.same(intVectorSerialzer.deserialize(raw), l, 'int vector read')
    mon.state('vector', raw)
    f = io.BytesIO()
    l = [btc.MOut(gen.blob(rng, 32), gen.int_in(rng, 0, btc.MASK32)) for _ in range(gen.size(rng, 600, 6))]
    VectorSerializer.stream_serialize(COutPoint, [COutPoint(o.h, o.n) for o in l], f)
    raw = btc.compact(len(l)) + b''.join(o.ser() for o in l)
    mon.same(f.getvalue(), raw, 'vector of outpoints')
    got = VectorSerializer.stream_deserialize(COutPoint, io.BytesIO(raw))
    mon.same(b''.join(o.serialize() for o in got), raw[len(btc.compact(len(l))):], 'vector of outpoints read')


def long_(rng, mon, i):
    """Vectors and strings around and past 65535 items, where the length takes its next form"""
    n = rng.choice((65535, 65536, 65537, 65536 + rng.randint(2, 9000), 131072 + rng.randint(0, 3)))
    what = i % 5
    if what == 0:
        l = [rng.randrange(-2**31, 2**31) for _ in range(n)]
        c, body = intVectorSerialzer, b''.join(btc.le(v, 4, True) for v in l)
    elif what == 1:
        b = rng.randbytes(32 * n)
        l, body = [b[k:k + 32] for k in range(0, len(b), 32)], b
        c = uint256VectorSerializer
    elif what < 4:
        l = body = rng.randbytes(n)
        c = (BytesSerializer, VarStringSerializer)[what - 2]
    else:
        ms = [btc.MOut(rng.randbytes(32), rng.getrandbits(32)) for _ in range(n)]
        raw = btc.compact(n) + b''.join(o.ser() for o in ms)
        f = io.BytesIO()
        VectorSerializer.stream_serialize(COutPoint, [COutPoint(o.h, o.n) for o in ms], f)
        mon.check(f.getvalue() == raw, 'long vector of outpoints', n)
        f = io.BytesIO(raw + b'!')
        got = VectorSerializer.stream_deserialize(COutPoint, f)
        mon.check(len(got) == n and all(o.hash == m.h and o.n == m.n for o, m in zip(got, ms)), 'long vector of outpoints read', n)
        mon.check(f.read() == b'!', 'what follows a long vector', n)
        mon.state('long', (what, n))
        return
    raw = btc.compact(n) + body
    mon.check(c.serialize(l) == raw, 'long ' + c.__name__, n)
    f = io.BytesIO(raw + b'!')
    mon.check(c.stream_deserialize(f) == l, 'long %s read' % c.__name__, n)
    mon.check(f.read() == b'!', 'what follows a long ' + c.__name__, n)
    mon.state('long', (what, n))


def ranges(rng, mon, i):
    """Values that do not fit are refused, never cut to size"""
    def no(what, fn):
        st, v = mon.outcome(what, fn)
        mon.check(st == 'error', what + ' was accepted', v)
        mon.event('refused')
    for _ in range(5):
        big = rng.choice((2**32, -1, 2**32 + gen.int_in(rng, 0, 2**64), -1 - gen.int_in(rng, 0, 2**40)))
        h = gen.blob(rng, 32)
        badh = rng.choice((h[:31], h + b'\x00', b'', h[:20]))
        mon.raises('outpoint hash of %d bytes' % len(badh), ValueError, COutPoint, badh, 0)
        mon.raises('outpoint index %d' % big, ValueError, COutPoint, h, big)
        mon.raises('sequence %d' % big, ValueError, CTxIn, COutPoint(), CScript(), big)
        mon.raises('sequence %d' % big, ValueError, CMutableTxIn, CMutableOutPoint(), CScript(), big)
        mon.raises('lock time %d' % big, ValueError, CTransaction, (), (), big)
        mon.raises('lock time %d' % big, ValueError, CMutableTransaction, [], [], big)
        v32 = rng.choice((2**31, -2**31 - 1, 2**32, 2**31 + gen.int_in(rng, 0, 2**40)))
        no('version %d' % v32, lambda: CTransaction((), (), 0, v32).serialize())
        no('block version %d' % v32, lambda: CBlockHeader(v32).serialize())
        v64 = rng.choice((2**63, -2**63 - 1, 2**64, 2**63 + gen.int_in(rng, 0, 2**70)))
        no('value %d' % v64, lambda: CTxOut(v64, CScript()).serialize())
        no('block previous hash', lambda: CBlockHeader(1, badh).serialize())
        no('block merkle root', lambda: CBlockHeader(1, h, badh).serialize())
        for k in (3, 4, 5):
            a = [1, h, h, 0, 0, 0]
            a[k] = big
            no('header field %d' % k, lambda: CBlockHeader(*a).serialize())
        mt = CMutableTransaction([CMutableTxIn()], [CMutableTxOut(0)])
        kind = rng.randrange(5)
        if kind == 0:
            mt.nLockTime = big
        elif kind == 1:
            mt.vin[0].nSequence = big
        elif kind == 2:
            mt.vin[0].prevout.n = big
        elif kind == 3:
            mt.vin[0].prevout.hash = badh
        else:
            mt.vout[0].nValue = v64
        no('mutable transaction with a field out of range (%d)' % kind, mt.serialize)
        mon.state('out of range', (big, len(badh), v32, v64, kind))
    big_header = [1, bytes(32), bytes(32), btc.MASK32, btc.MASK32, btc.MASK32]
    mon.call('largest header', CBlockHeader(*big_header).serialize)


SUITES = [Suite('parts', parts, 4000, 20000), Suite('transactions', txs, 9600, 50000), Suite('coinbase', coinbase, 1200, 4000),
          Suite('blocks', blocks, 4000, 20000), Suite('vectors', vectors, 2400, 12000), Suite('long', long_, 40, 400), Suite('ranges', ranges, 1200, 4000)]

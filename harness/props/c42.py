"""Script numbers and big number encodings"""
import struct
from harness.worker import Suite
from harness import gen
from harness.models import script as S
from bitcoin.core import _bignum as B

RULE = ('integers of every size and sign at byte boundaries, encoded and decoded against an independent definition, and arbitrary '
        'byte strings decoded. Non-trivial: distinct integers and byte strings.')


def show(v):
    return '%d' % v if v.bit_length() < 300 else hex(v)


def numbers(rng, mon, i):
    for _ in range(40):
        v = gen.int_in(rng, -2**rng.choice((8, 16, 24, 31, 32, 64, 300)), 2**rng.choice((8, 16, 24, 31, 32, 64, 300)))
        if rng.random() < 0.04:
            nbits = rng.choice((512, 520, 1024, 2039, 2040, 2047, 2048, 2055, 2056, 4096, 8192, 16384, rng.randrange(16384)))
            v = rng.choice((1, -1)) * rng.choice((2**nbits, 2**nbits - 1, 2**nbits + 1, rng.getrandbits(nbits + 1)))
        e = S.num(v)
        mon.same(mon.call('bn2vch', B.bn2vch, v), e, 'encoding of %s' % show(v))
        mon.same(mon.call('vch2bn', B.vch2bn, e), v, 'decoding of %s' % show(v))
        mpi = bytes(mon.call('bn2mpi', B.bn2mpi, v))
        mon.same(mpi, struct.pack('>I', len(e)) + e[::-1], 'MPI encoding of %s' % show(v))
        mon.same(B.mpi2bn(mpi), v, 'MPI decoding of %s' % show(v))
        mon.same(bytes(B.mpi2vch(mpi)), e, 'mpi2vch')
        mon.same(bytes(B.vch2mpi(e)), mpi, 'vch2mpi')
        mon.state('number', hex(v))
        # shortest: no shorter string decodes to it
        mon.check(not e or S.unnum(e[:-1]) != v, 'encoding is not the shortest')
        a = abs(v)
        mon.same(bytes(B.bn2bin(a)), a.to_bytes((a.bit_length() + 7) // 8, 'big'), 'bn2bin')
        mon.same(B.bin2bn(a.to_bytes((a.bit_length() + 7) // 8 + rng.choice((0, 1, 40)), 'big')), a, 'bin2bn')
        mon.same(B.bn_bytes(a), (a.bit_length() + 7) // 8, 'bn_bytes')


def strings(rng, mon, i):
    for _ in range(40):
        b = rng.choice((gen.data(rng, 60, 5), S.gen_number(rng)))
        if rng.random() < 0.02:
            b = rng.randbytes(rng.choice((255, 256, 257, 520, 521, rng.randrange(3000))))
        mon.same(mon.call('vch2bn', B.vch2bn, b), S.unnum(b), 'decoding of ' + b.hex())
        mon.state('string', b)
        m = struct.pack('>I', len(b)) + b
        mon.same(B.mpi2bn(m), S.unnum(b[::-1]), 'MPI decoding of ' + m.hex())
        for bad in (m + b'\x00', m[:-1], m[:3], b'', struct.pack('>I', len(b) + 1) + b):
            if bad == m:
                continue
            mon.same(B.mpi2bn(bad), None, 'malformed MPI ' + bad.hex()[:100])


def small(rng, mon, i):
    """Every number of up to 17 bits, every string of up to two bytes"""
    for v in range(-(1 << 13) * (i + 1), -(1 << 13) * i):
        for x in (v, -v):
            e = S.num(x)
            mon.check(B.bn2vch(x) == e and B.vch2bn(e) == x, 'number %d' % x)
    for k in range(8192 * i, min(65536, 8192 * (i + 1))):
        b = bytes([k >> 8, k & 255])
        mon.check(B.vch2bn(b) == S.unnum(b), 'string ' + b.hex())
        mon.check(B.vch2bn(b[:1]) == S.unnum(b[:1]), 'string ' + b[:1].hex())
    mon.state('block of small numbers', i)


def large(rng, mon, i):
    """Numbers and strings of thousands of bytes"""
    size = rng.choice((4095, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 65535, 65536, 65537, 70000))
    v = rng.choice((1, -1)) * (rng.getrandbits(8 * size) | 1 << (8 * size - rng.randrange(1, 9)))
    e = S.num(v)
    mpi = struct.pack('>I', len(e)) + e[::-1]
    mon.check(B.mpi2bn(mpi) == v, 'MPI decoding of a number of %d bytes' % size)
    mon.check(B.vch2bn(e) == v, 'decoding of a number of %d bytes' % size)
    mon.check(bytes(B.mpi2vch(mpi)) == e and bytes(B.vch2mpi(e)) == mpi, 'mpi2vch or vch2mpi of %d bytes' % size)
    a = abs(v)
    raw = a.to_bytes((a.bit_length() + 7) // 8, 'big')
    mon.check(B.bin2bn(raw) == a, 'bin2bn of %d bytes' % size)
    if size <= 16384:
        mon.check(bytes(B.bn2vch(v)) == e, 'encoding of a number of %d bytes' % size)
        mon.check(bytes(B.bn2mpi(v)) == mpi, 'MPI encoding of a number of %d bytes' % size)
        mon.check(bytes(B.bn2bin(a)) == raw, 'bn2bin of %d bytes' % size)
    for bad in (mpi + b'\x00', mpi[:-1], struct.pack('>I', len(e) + 1) + e):
        mon.check(B.mpi2bn(bad) is None, 'malformed MPI of %d bytes' % len(bad))
    mon.state('large number', e)


SUITES = [Suite('numbers', numbers, 4800, 20000), Suite('strings', strings, 4800, 20000), Suite('small', small, 8, 16), Suite('large', large, 64, 400)]

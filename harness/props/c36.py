"""Bloom filters and MurmurHash3"""
import decimal, struct
from harness.worker import Suite
from harness import gen
from harness.models import btc
from bitcoin.bloom import CBloomFilter, MurmurHash3
from bitcoin.core import COutPoint, CMutableOutPoint
from bitcoin.core.script import CScript
from bitcoin.core.serialize import SerializationError

RULE = ('byte strings of every length around the 4-byte blocks under arbitrary seeds, filters of every size up to and past the '
        'protocol limits filled with byte strings and outpoints, each state compared bit for bit with a model, and damaged filter '
        'encodings. Non-trivial: distinct hashed strings, filter states and encodings.')
M32 = 0xffffffff
decimal.getcontext().prec = 60
LN2 = decimal.Decimal(2).ln()


def rotl(v, n):
    b = format(v & M32, '032b')
    return int(b[n:] + b[:n], 2)


def murmur(seed, data):
    """MurmurHash3_x86_32, from its reference description"""
    h = seed & M32
    full = len(data) - len(data) % 4
    for (k,) in struct.iter_unpack('<I', bytes(data[:full])):
        k = rotl(k * 0xcc9e2d51, 15) * 0x1b873593 & M32
        h = (rotl(h ^ k, 13) * 5 + 0xe6546b64) & M32
    tail = bytes(data[full:])
    if tail:
        k = int.from_bytes(tail, 'little')
        h ^= rotl(k * 0xcc9e2d51, 15) * 0x1b873593 & M32
    h ^= len(data)
    h = (h ^ h >> 16) * 0x85ebca6b & M32
    h = (h ^ h >> 13) * 0xc2b2ae35 & M32
    return h ^ h >> 16


class Model:
    def __init__(self, nbytes, nfuncs, tweak, flags):
        self.bits, self.n, self.k, self.tweak, self.flags = set(), nbytes, nfuncs, tweak, flags

    def where(self, b):
        return [murmur((j * 0xfba4c795 + self.tweak) & M32, b) % (self.n * 8) for j in range(self.k)] if self.n else []

    def insert(self, b):
        self.bits.update(self.where(b))

    def contains(self, b):
        return all(w in self.bits for w in self.where(b))

    def data(self):
        out = bytearray(self.n)
        for w in self.bits:
            out[w >> 3] |= 1 << (w & 7)
        return bytes(out)

    def ser(self):
        return btc.compact(self.n) + self.data() + struct.pack('<IIB', self.k, self.tweak, self.flags)


def hashing(rng, mon, i):
    for _ in range(20):
        seed = gen.int_in(rng, 0, M32)
        b = gen.data(rng, 600, 20)
        arg = rng.choice((b, bytearray(b), CScript(b)))
        mon.same(mon.call('MurmurHash3', MurmurHash3, seed, arg), murmur(seed, b), 'hash of %s under %#x' % (b.hex(), seed))
        mon.state('hashed', struct.pack('<I', seed) + b)
    if i % 50 == 0:
        b = gen.blob(rng, rng.choice((4095, 4096, 4097, 65535, 65536, 65537, 70001, 100002, rng.randrange(100000))))
        mon.same(mon.call('MurmurHash3', MurmurHash3, seed, b), murmur(seed, b), 'hash of %d bytes' % len(b))


def sizes(rng, mon, i):
    """A new filter has the size the parameters call for, within the protocol's limits"""
    c = CBloomFilter
    mon.eq((c.MAX_BLOOM_FILTER_SIZE, c.MAX_HASH_FUNCS, c.UPDATE_NONE, c.UPDATE_ALL, c.UPDATE_P2PUBKEY_ONLY, c.UPDATE_MASK),
           (36000, 50, 0, 1, 2, 3), 'constants of BIP37')
    for _ in range(15):
        n = rng.choice((gen.int_in(rng, 1, 20), gen.int_in(rng, 1, 100000), rng.randint(1, 3000)))
        p = rng.choice((0.5, 0.1, 0.01, 0.001, 0.0001, 1e-6, 1e-12, 1e-300, 0.9, 0.999, 1.0, rng.random() or 0.5))
        tweak, flags = gen.int_in(rng, 0, M32), gen.int_in(rng, 0, 255)
        f = mon.call('CBloomFilter', CBloomFilter, n, p, tweak, flags)
        lp = -decimal.Decimal(p).ln()
        nbytes = n * lp / (LN2 * LN2) / 8
        # floor(x), either way when x is within rounding of an integer
        ok = {min(36000, int(x)) for x in (nbytes * (1 - decimal.Decimal(10) ** -9), nbytes * (1 + decimal.Decimal(10) ** -9))}
        mon.check(len(f.vData) in ok, 'filter for %d elements at %r has %d bytes, expected %s' % (n, p, len(f.vData), ok))
        k = decimal.Decimal(len(f.vData) * 8) / n * LN2
        ok = {min(50, int(x)) for x in (k * (1 - decimal.Decimal(10) ** -9), k * (1 + decimal.Decimal(10) ** -9))}
        mon.check(f.nHashFuncs in ok, 'filter for %d elements at %r has %d hash functions, expected %s' % (n, p, f.nHashFuncs, ok))
        mon.check(not any(f.vData), 'a new filter is not empty')
        mon.check(f.IsWithinSizeConstraints() is True, 'a new filter exceeds the limits')
        mon.check(f.nTweak == tweak and f.nFlags == flags, 'tweak and flags')
        mon.same(mon.call('serialize', f.serialize), Model(len(f.vData), f.nHashFuncs, tweak, flags).ser(), 'encoding of a new filter')
        mon.state('parameters', (n, p))


def element(rng):
    """(what is inserted, the bytes it stands for)"""
    if rng.random() < 0.3:
        h, n = gen.blob(rng, 32), gen.int_in(rng, 0, M32)
        return rng.choice((COutPoint, CMutableOutPoint))(h, n), h + struct.pack('<I', n)
    b = gen.data(rng, 200, 25)
    return rng.choice((b, b, bytearray(b), CScript(b))), b


def make(rng):
    """(filter, model)"""
    tweak, flags = gen.int_in(rng, 0, M32), rng.choice((0, 1, 2, gen.int_in(rng, 0, 255)))
    r = rng.random()
    if r < 0.6:
        f = CBloomFilter(rng.choice((1, 2, 3, 10, 40, 1000)), rng.choice((0.9, 0.5, 0.01, 0.001, 1e-9)), tweak, flags)
        return f, Model(len(f.vData), f.nHashFuncs, tweak, flags)
    n = rng.choice((0, 1, 1, 1, 2, 3, 8, 252, 253, 254, gen.size(rng, 36000, 50), 36001))
    m = Model(n, rng.choice((0, 1, 2, 3, 11, 50, 51, 75)), tweak, flags)
    if n < 300:
        full = rng.random() < 0.2
        for w in range(n * 8):
            if full or rng.random() < 0.1:
                m.bits.add(w)
    return CBloomFilter.deserialize(m.ser()), m


def history(rng, mon, i):
    f, m = make(rng)
    known = []
    for _ in range(rng.choice((5, 20, 60))):
        e, b = element(rng)
        r = rng.random()
        if r < 0.45:
            mon.call('insert', f.insert, e)
            m.insert(b)
            known.append((e, b))
            mon.check(f.contains(e) is True and f.contains(b) is True, 'an inserted element is not found', e)
            mon.event('insertions')
        elif r < 0.8:
            mon.same(mon.call('contains', f.contains, e), m.contains(b), 'membership of %s' % b.hex())
            mon.event('lookups')
        elif r < 0.9:
            s = mon.call('serialize', f.serialize)
            mon.same(s, m.ser(), 'encoding')
            f = mon.call('deserialize', CBloomFilter.deserialize, s)
            mon.event('round trips')
        else:
            for e, b in known:
                mon.check(f.contains(rng.choice((e, b))) is True, 'an inserted element is no longer found', b)
                mon.event('lookups')
        mon.check(len(f.vData) == m.n and f.nHashFuncs == m.k and f.nTweak == m.tweak and f.nFlags == m.flags, 'parameters changed')
        mon.same(bytes(f.vData), m.data(), 'bits of the filter', m.__dict__)
        mon.state('filter', m.ser())
    mon.check(f.IsWithinSizeConstraints() is (m.n <= 36000 and m.k <= 50), 'limits')


def rate(rng, mon, i):
    """At its capacity, about the asked-for rate of false positives"""
    n, p = rng.choice(((200, 0.1), (500, 0.05), (400, 0.02), (300, 0.01)))
    f = CBloomFilter(n, p, rng.getrandbits(32), 0)
    for j in range(n):
        f.insert(b'in' + rng.randbytes(18))
    q = 2500
    hits = sum(f.contains(b'no' + rng.randbytes(18)) for j in range(q))
    # 10 standard deviations, and twice the rate for rounding of the parameters
    bound = 2 * p * q + 10 * (2 * p * q) ** 0.5
    mon.check(hits < bound, '%d false positives of %d lookups at a rate of %r' % (hits, q, p))
    mon.event('false positive lookups', q)
    mon.state('rate', (n, p, hits))


def encodings(rng, mon, i):
    for _ in range(10):
        n = rng.choice((0, 1, 2, 10, 252, 253, 300, 36000, 36001))
        k = rng.choice((0, 1, 49, 50, 51, gen.int_in(rng, 0, M32)))
        tweak, flags = gen.int_in(rng, 0, M32), gen.int_in(rng, 0, 255)
        b = btc.compact(n) + gen.blob(rng, n) + struct.pack('<IIB', k, tweak, flags)
        f = mon.call('deserialize', CBloomFilter.deserialize, b)
        mon.check((len(f.vData), f.nHashFuncs, f.nTweak, f.nFlags) == (n, k, tweak, flags), 'decoded fields')
        mon.same(f.IsWithinSizeConstraints(), n <= 36000 and k <= 50, 'limits of %d bytes, %d functions' % (n, k))
        mon.same(mon.call('serialize', f.serialize), b, 'encoding')
        mon.state('encoding', b[:3] + b[-9:])
        cut = rng.choice((1, 4, 5, 8, 9, rng.randint(1, len(b))))
        mon.raises('truncated filter', SerializationError, CBloomFilter.deserialize, b[:len(b) - min(cut, len(b))])
        d = gen.mutate(rng, b[:400] if n < 300 else b)
        how, r = mon.outcome('damaged filter', CBloomFilter.deserialize, d, errors=SerializationError)
        if how == 'ok':
            again = CBloomFilter.deserialize(mon.call('serialize', r.serialize))
            mon.check((again.vData, again.nHashFuncs, again.nTweak, again.nFlags) == (r.vData, r.nHashFuncs, r.nTweak, r.nFlags), 'round trip of a decoded filter', d)
            mon.check(d.endswith(r.serialize()[-9:]) and bytes(r.vData) in d, 'decoded filter is not in its encoding', d)
        else:
            mon.event('damaged encodings refused')


SUITES = [Suite('hashing', hashing, 2000, 30000), Suite('sizes', sizes, 1200, 10000), Suite('history', history, 2000, 15000),
          Suite('rate', rate, 192, 800), Suite('encodings', encodings, 480, 4000)]

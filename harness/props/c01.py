"""Bits: an immutable sequence of bits"""
from harness.worker import Suite
from harness import gen
from harness.models import immut
from harness.monitor import short
from proofmarshal.bits import Bits

RULE = ('random histories over a pool of bit arrays built by every constructor and operation (with junk in unused '
        'buffer bits), each step compared with a Python tuple model; plus all pairs of short arrays. Non-trivial: '
        'distinct (operation, operand bit lengths mod 8, result length) combinations and distinct values.')
ASSUMPTIONS = ['CPython sequence semantics of tuple are the reference']


def dirty_from(rng, model):
    """A Bits with this content, and junk in the bits it does not use"""
    n = len(model)
    s = ''.join(map(str, model))
    pad = -n % 8
    s += ''.join(rng.choice('01') for _ in range(pad)) if rng.random() < 0.7 else '0' * pad
    buf = int(s, 2).to_bytes(len(s) // 8, 'big') if s else b''
    if rng.random() < 0.4:
        buf += rng.randbytes(rng.randint(1, 5))
    if len(buf) * 8 == n and rng.random() < 0.5:
        return Bits.from_bytes(buf)
    return Bits.from_bytes(buf, n)


def make(rng, mon, n=None):
    if n is None:
        n = gen.size(rng, 2100, 24)
    r = rng.random()
    if r < 0.2:
        m = (rng.randrange(2),) * n
    elif r < 0.4:
        m = [rng.choice((0, 1))] * n
        for _ in range(min(n, rng.choice((1, 1, 2)))):
            m[rng.randrange(n)] ^= 1
        m = tuple(m)
    else:
        v = gen.blob(rng, (n + 7) // 8)
        m = tuple(int(c) for x in v for c in '{:08b}'.format(x))[:n]
    how = rng.randrange(6)
    if how == 0:
        b = mon.call('Bits(list)', Bits, list(m))
    elif how == 1:
        b = mon.call('Bits(generator)', Bits, (bool(x) for x in m))
    elif how == 2:
        truthy = [rng.choice(((), 0, '', None, False)) if not x else rng.choice((1, 2, 'x', [0], True, -1)) for x in m]
        b = mon.call('Bits(truthy values)', Bits, truthy)
    else:
        b = mon.call('Bits.from_bytes', dirty_from, rng, m)
    return b, m


def same(mon, b, m, what):
    mon.check(type(b) is Bits, what + ': result is not a Bits', short(b))
    mon.eq(len(b), len(m), what + ': length')
    mon.eq(tuple(b), m, what + ': bits')
    for x in tuple(b)[:4]:
        mon.check(x in (0, 1) and isinstance(x, int), what + ': a bit is not 0/1', x)


def check_pair(mon, a, ma, b, mb):
    mon.same(mon.call('==', lambda: a == b), ma == mb, 'a == b', ma, mb)
    mon.same(mon.call('!=', lambda: a != b), ma != mb, 'a != b', ma, mb)
    mon.same(mon.call('startswith', a.startswith, b), ma[:len(mb)] == mb, 'a.startswith(b)', ma, mb)
    k = 0
    while k < min(len(ma), len(mb)) and ma[k] == mb[k]:
        k += 1
    same(mon, mon.call('common_prefix', a.common_prefix, b), ma[:k], 'common_prefix of %s and %s' % (short(ma), short(mb)))
    mon.event('pairs')


def pick_related(rng, mon, pool):
    """An array sharing a prefix with one of the pool"""
    b, m = rng.choice(pool)
    m = list(m)
    r = rng.random()
    if r < 0.4 and m:
        m[rng.choice((len(m) - 1, rng.randrange(len(m)), max(0, len(m) - rng.randint(1, 9))))] ^= 1
    elif r < 0.6:
        m = m[:rng.randint(0, len(m))]
    elif r < 0.8:
        m = m + [rng.randrange(2) for _ in range(rng.randint(1, 17))]
    m = tuple(m)
    return dirty_from(rng, m), m


def case(rng, mon, i):
    pool = [make(rng, mon) for _ in range(3)]
    for b, m in pool:
        same(mon, b, m, 'construction')
    for _ in range(24):
        b, m = rng.choice(pool)
        op = rng.randrange(11)
        n = len(m)
        if op == 0:
            def idx():
                return rng.choice((None, 0, 1, -1, n, n - 1, n + 1, -n, -n - 1, rng.randint(-n - 3, n + 3),
                                   8 * rng.randint(0, n // 8 + 1), gen.int_in(rng, -2**70, 2**70)))
            s = slice(idx(), idx(), rng.choice((None, None, None, 1, 1, -1, 2, -2, 3, rng.choice((-8, 8, 7)))))
            r, rm = mon.call('slice %r of %d bits' % (s, n), lambda: b[s]), m[s]
            same(mon, r, rm, 'slice %r of %d bits' % (s, n))
            pool.append((r, rm))
            mon.state('slice', (s.step, n % 8, len(rm)))
        elif op == 1:
            c, cm = rng.choice(pool) if rng.random() < 0.7 else make(rng, mon, rng.randint(0, 20))
            if n + len(cm) < 9000:
                r, rm = mon.call('+', lambda: b + c), m + cm
                same(mon, r, rm, 'concatenation of %d and %d bits' % (n, len(cm)))
                pool.append((r, rm))
                mon.state('concat', (n % 8, len(cm) % 8, len(cm) // 8))
        elif op == 2:
            r, rm = mon.call('~', lambda: ~b), tuple(1 - x for x in m)
            same(mon, r, rm, 'inversion')
            pool.append((r, rm))
            mon.state('invert', n)
        elif op == 3:
            for k in {0, n - 1, -1, -n, n, -n - 1, rng.randint(-n - 2, n + 2), gen.int_in(rng, -2**70, 2**70)}:
                if -n <= k < n:
                    mon.eq(mon.call('[%d]' % k, lambda: b[k]), m[k], 'bit %d of %d' % (k, n))
                else:
                    mon.raises('index %d of %d bits' % (k, n), IndexError, lambda: b[k])
        elif op == 4:
            c, cm = pick_related(rng, mon, pool)
            check_pair(mon, b, m, c, cm)
            check_pair(mon, c, cm, b, m)
            pool.append((c, cm))
            mon.state('pair', (n, len(cm), m == cm))
        elif op == 5:
            c, cm = rng.choice(pool)
            check_pair(mon, b, m, c, cm)
        elif op == 6:
            mon.eq(mon.call('repr', repr, b), 'Bits([%s])' % ','.join(map(str, m)), 'repr')
            mon.check(eval(repr(b), {'Bits': Bits}) == b, 'repr does not evaluate back')
        elif op == 7:
            r = mon.call('Bits(Bits)', Bits, b)
            same(mon, r, m, 'Bits(Bits)')
            pool.append((r, m))
        elif op == 8:
            buf = gen.blob(rng, rng.randint(0, 6))
            k = rng.choice((len(buf) * 8, len(buf) * 8 + 1, -1, rng.randint(-2, 60), 2**70))
            if 0 <= k <= len(buf) * 8:
                r = mon.call('from_bytes', Bits.from_bytes, buf, k)
                rm = tuple(int(c) for x in buf for c in '{:08b}'.format(x))[:k]
                same(mon, r, rm, 'from_bytes(%r, %d)' % (buf, k))
                pool.append((r, rm))
            else:
                mon.raises('from_bytes(%d bytes, %d)' % (len(buf), k), ValueError, Bits.from_bytes, buf, k)
        elif op == 9:
            bad = rng.choice((bytearray(b'\x00'), '00', [0], None, memoryview(b'\x00')))
            mon.raises('from_bytes(%r)' % (bad,), TypeError, Bits.from_bytes, bad)
            mon.raises('from_bytes with a non-int length', TypeError, Bits.from_bytes, b'\x00', rng.choice((1.0, '1', True)))
            other = rng.choice((m, list(m), b'\x00', 0, None, 'x'))
            mon.raises('concatenating %r' % type(other), TypeError, lambda: b + other)
            mon.raises('startswith %r' % type(other), TypeError, lambda: b.startswith(other))
            mon.raises('common_prefix %r' % type(other), TypeError, lambda: b.common_prefix(other))
            mon.raises('index by %r' % type('x'), TypeError, lambda: b['x'])
            mon.same(b == other, False, 'equality with a %s' % type(other))
        else:
            mon.eq(list(iter(b)), list(m), 'iteration')
            mon.eq([x for x in reversed(b)], list(reversed(m)), 'reversed')
            if n:
                mon.same(1 in b, 1 in m, '1 in bits')
        mon.event('operations')
        if len(pool) > 14:
            del pool[rng.randrange(len(pool))]
    # nothing that was done changed an operand
    if pool and rng.random() < 0.3:
        b, m = rng.choice(pool)
        x, mx = rng.choice(pool)
        immut.operators(rng, mon, b, [x, b, m, [1], 1, b'\x01'], 'bits', 4)
        immut.methods(rng, mon, b, [x, b, m, [1], 1, b'\x01'], 'bits', 3)
        c = b
        c += x
        same(mon, c, m + mx, 'concatenation in place')
    for b, m in pool:
        same(mon, b, m, 'operand after the history')
        mon.state('value', repr(m))


def exhaustive(rng, mon, i):
    """Array i (of all arrays up to length N) against all others"""
    import itertools
    limit = 6 if mon.tier == 'quick' else 9
    allm = exhaustive.cache.get(limit)
    if allm is None:
        allm = exhaustive.cache[limit] = [m for n in range(limit + 1) for m in itertools.product((0, 1), repeat=n)]
    if i >= len(allm):
        return
    ma = allm[i]
    a1, a2 = Bits(ma), dirty_from(rng, ma)
    others = allm if len(allm) < 200 else rng.sample(allm, 250)
    for mb in others:
        b = Bits(mb) if rng.random() < 0.3 else dirty_from(rng, mb)
        check_pair(mon, rng.choice((a1, a2)), ma, b, mb)
        same(mon, a2 + b, ma + mb, 'concatenation')
    for s0 in range(-len(ma) - 1, len(ma) + 2):
        for s1 in range(-len(ma) - 1, len(ma) + 2):
            for st in (1, 2, -1):
                same(mon, a2[s0:s1:st], ma[s0:s1:st], 'slice')
    mon.state('exhaustive', ma)


exhaustive.cache = {}
SUITES = [Suite('short pairs', exhaustive, 127, 1023), Suite('histories', case, 18000, 90000)]

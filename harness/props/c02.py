"""Bits: ordering and encoding depend on the bits alone"""
import functools
from harness.worker import Suite
from harness import gen
from harness.models import pm
from harness.monitor import short
from harness.props.c01 import make, dirty_from, pick_related, same
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.serialize import DeserializationError, TruncationError, SerializerTypeError

RULE = ('groups of related bit arrays (sharing prefixes, differing in one bit or in length, with junk in unused '
        'buffer bits): order axioms on all pairs and triples, encoding compared with an independent encoder, decoding of '
        'valid, truncated, padded and damaged encodings. Non-trivial: distinct encodings and distinct ordered pairs.')


def order(rng, mon, i):
    if rng.random() < 0.1:
        # long ones, told apart by their last bits or their length
        n = rng.choice((120, 128, 250, 256, 257, 260, 512, 1000, 1024, 2048, 2100, gen.size(rng, 5000, 100)))
        base = tuple(gen.blob(rng, 1)[0] >> 7 for _ in range(n)) if rng.random() < 0.5 else (rng.randrange(2),) * n
        z = rng.randrange(2)
        items = [(dirty_from(rng, m), m) for m in (base, base + (z,), base + (z,) * 2, base + (1 - z,))]
        items += [(dirty_from(rng, m), m) for m in (base + (0,) * rng.randint(1, 20),)]
    else:
        items = [make(rng, mon, gen.size(rng, 80, 12)) for _ in range(3)]
    for _ in range(5):
        items.append(pick_related(rng, mon, items))
    items += [(dirty_from(rng, m), m) for _, m in items[:2]]
    lt = {}
    for x, (a, ma) in enumerate(items):
        for y, (b, mb) in enumerate(items):
            l, g, e, le, ge = (mon.call('compare', lambda: op) for op in (a < b, a > b, a == b, a <= b, a >= b))
            d = (short(ma), short(mb))
            for v in (l, g, e, le, ge):
                mon.check(type(v) is bool, 'comparison is not a bool', *d)
            mon.check((l, g, e).count(True) == 1, 'exactly one of <, >, == must hold, got %r' % ((l, g, e),), *d)
            mon.eq(e, ma == mb, 'equality', *d)
            mon.check(le == (l or e) and ge == (g or e), '<= and >= disagree with <, ==, >', *d)
            mon.check(l == (b > a), 'a < b but not b > a', *d)
            lt[x, y] = l
            key = (ma, mb)
            if key in lt:
                mon.eq(l, lt[key], 'order depends on something other than the bits', *d)
            lt[key] = l
            mon.state('ordered pair', (ma, mb, l))
    n = len(items)
    for x in range(n):
        for y in range(n):
            if lt[x, y]:
                for z in range(n):
                    if lt[y, z]:
                        mon.check(lt[x, z], 'order is not transitive', items[x][1], items[y][1], items[z][1])
    mon.event('triples', n ** 3)
    perm = items[:]
    rng.shuffle(perm)
    mon.check([tuple(b) for b in sorted(b for b, _ in perm)] == [tuple(b) for b in sorted(b for b, _ in items)],
              'sorting depends on the initial order')
    for other in (None, 0, (), b'', [0]):
        mon.raises('ordering against %r' % (other,), TypeError, lambda: items[0][0] < other)


def encode(rng, mon, i):
    for _ in range(10):
        b, m = make(rng, mon) if rng.random() < 0.7 else make(rng, mon, 8 * gen.size(rng, 600, 4))
        if rng.random() < 0.4 and len(m) > 2:
            k = rng.randint(0, len(m))
            b, m = b[:k], m[:k]            # shares the buffer of a longer array
        want = pm.enc_bits(m)
        mon.call('check_instance', BitsSerializer.check_instance, b)
        got = mon.call('serialize', BitsSerializer.serialize, b)
        mon.same(got, want, 'encoding of %d bits' % len(m))
        r = mon.call('deserialize', BitsSerializer.deserialize, want)
        same(mon, r, m, 'decoded')
        mon.check(r == b, 'decoded array is not equal')
        mon.same(BitsSerializer.serialize(r), want, 're-encoding')
        mon.state('encoding', want)
        # proper prefixes are truncated; anything longer is junk
        for k in {0, len(want) - 1, rng.randrange(len(want))}:
            mon.raises('truncated encoding', TruncationError, BitsSerializer.deserialize, want[:k])
        mon.raises('trailing junk', DeserializationError, BitsSerializer.deserialize, want + gen.blob(rng, rng.randint(1, 3)))
        # every unused bit must be zero
        for pad in range(-len(m) % 8):
            bad = want[:-1] + bytes([want[-1] | (1 << pad)])
            mon.raises('non-zero unused bit %d' % pad, DeserializationError, BitsSerializer.deserialize, bad)
        bad = gen.mutate(rng, want)
        st, v = mon.outcome('deserialize damaged', BitsSerializer.deserialize, bad, errors=DeserializationError)
        if st == 'ok':
            mon.same(BitsSerializer.serialize(v), bad, 'accepted encoding does not re-encode to itself')
            ref = pm.read_varuint(bad, 0)
            mon.check(ref is not None and len(v) == ref[0], 'decoded length', bad)
        # two values in one stream
    for bad in (None, 0, b'\x00', [0, 1], (1,), 'x'):
        mon.raises('check_instance(%r)' % (bad,), SerializerTypeError, BitsSerializer.check_instance, bad)


def huge(rng, mon, i):
    n = rng.choice((2**31, 2**32, 2**63, 2**64, 2**66, 2**67 - 1, 2**70, gen.int_in(rng, 1, 2**80)))
    enc = pm.varuint(max(n, 200)) + gen.blob(rng, rng.randint(0, 20))
    mon.raises('length larger than the data', TruncationError, BitsSerializer.deserialize, enc)


SUITES = [Suite('order', order, 12000, 50000), Suite('encode', encode, 12000, 50000), Suite('huge', huge, 80, 800)]

"""Hex and money helpers"""
from decimal import Decimal
from harness.worker import Suite
from harness import gen
from bitcoin import core
from bitcoin.core import x, lx, b2x, b2lx, str_money_value, MoneyRange, COIN, MAX_MONEY

RULE = ('byte strings of every length up to a few hundred in both byte orders and both cases, strings that are not hex, and amounts '
        'around every power of ten and limit. Non-trivial: distinct byte strings, bad strings and amounts.')
DIGITS = '0123456789abcdef'


def hexed(b):
    return ''.join(DIGITS[v >> 4] + DIGITS[v & 15] for v in b)


def bytes_both_ways(rng, mon, i):
    n = i if i < 70 else gen.size(rng, 3000, 20)
    b = gen.blob(rng, n)
    if rng.random() < 0.2:
        b = bytes([rng.randrange(256)]) * n
    h = hexed(b)
    r = hexed(b[::-1])
    mon.same(mon.call('b2x', b2x, b), h, 'b2x')
    mon.same(mon.call('b2lx', b2lx, b), r, 'b2lx')
    mixed = ''.join(c.upper() if rng.random() < 0.5 else c for c in h)
    for t in (h, h.upper(), mixed):
        mon.same(mon.call('x', x, t), b, 'x')
        mon.same(mon.call('lx', lx, t), b[::-1], 'lx')
    mon.same(b2x(x(h)), h, 'b2x(x())')
    mon.same(b2lx(lx(h)), h, 'b2lx(lx())')
    mon.same(lx(b2lx(b)), b, 'lx(b2lx())')
    mon.state('bytes', b)
    # not hex
    if n:
        t = list(h)
        k = rng.randrange(len(t))
        what = rng.random()
        if what < 0.4:
            t[k] = rng.choice('gGzZ-+/:@`xX_.\u00e9\u0663\uff11\U0001d7d8')
        elif what < 0.7:
            del t[k]
        else:
            t.insert(k, rng.choice(DIGITS))
        t = ''.join(t)
        mon.raises('x(%r)' % t[:80], ValueError, x, t)
        mon.raises('lx(%r)' % t[:80], ValueError, lx, t)
        mon.state('not hex', t)
        mon.raises('x of 0x-prefixed', ValueError, x, '0x' + h)
    # white space is not hex, wherever it is and however it is counted
    sp = ''.join(rng.choice(' \t\n\r\x0b\x0c\0\xa0\u2003') for _ in range(rng.choice((1, 1, 2, 2, 4))))
    for k in {0, len(h), rng.randint(0, len(h)), 2 * rng.randint(0, n)}:
        t = h[:k] + sp + h[k:]
        mon.raises('x(%r)' % t[:80], ValueError, x, t)
        mon.raises('lx(%r)' % t[:80], ValueError, lx, t)
        mon.state('spaced', t)


def amount(rng):
    return rng.choice((
        gen.int_in(rng, 0, MAX_MONEY),
        10 ** rng.randrange(0, 20) + rng.choice((-1, 0, 1)),
        rng.randrange(0, 100) * 10 ** rng.randrange(0, 17),
        rng.randrange(0, 1000) * COIN + rng.choice((0, 1, 10, 100, COIN - 1, COIN // 10)),
        rng.randrange(1, 10**8),
        gen.int_in(rng, 0, 2**64 - 1),
        MAX_MONEY + rng.choice((-1, 0, 1)),
    ))


def money(rng, mon, i):
    for _ in range(30):
        v = max(0, amount(rng))
        if rng.random() < 0.2:
            core.str_money_value(-v)        # whatever is printed for these
        s = mon.call('str_money_value', str_money_value, v)
        mon.check(type(s) is str, 'type of a money string', s)
        whole, frac = divmod(v, 10**8)
        f = '%d' % (10**8 + frac)
        f = f[1:]
        while len(f) > 1 and f[-1] == '0':
            f = f[:-1]
        mon.eq(s, '%d.%s' % (whole, f), 'amount of %d' % v)
        mon.check(Decimal(s) * 10**8 == v, 'value of a money string', s, v)
        mon.same(MoneyRange(v), v <= 2100000000000000, 'MoneyRange(%d)' % v)
        neg = -rng.choice((1, v + 1))
        mon.same(MoneyRange(neg), False, 'MoneyRange(%d)' % neg)
        mon.state('amount', v)
    mon.eq((COIN, MAX_MONEY), (100000000, 2100000000000000), 'units of money')


SUITES = [Suite('bytes', bytes_both_ways, 30000, 200000), Suite('money', money, 15000, 60000)]

"""CheckTransaction against an independent statement of the rules"""
from harness.worker import Suite
from harness import gen
from harness.models import btc
from bitcoin.core import (CTransaction, CTxIn, CTxOut, COutPoint, CheckTransaction, CheckTransactionError, ValidationError, MoneyRange,
                          MAX_MONEY, COIN)
from bitcoin.core.script import CScript

RULE = ('transactions made valid and then changed in zero to three respects around every limit (empty lists, size, values, totals, '
        'duplicate inputs, null inputs, coinbase script length): verdict against an independent statement of the rules, '
        'mutable and immutable. Non-trivial: distinct transactions, by reason for the verdict.')
MAX = 21000000 * 10**8


def reason(m):
    """None if valid"""
    if not m.vin:
        return 'no inputs'
    if not m.vout:
        return 'no outputs'
    if len(m.ser()) > 1000000:
        return 'size'
    total = 0
    for v, _ in m.vout:
        if v < 0:
            return 'negative'
        if v > MAX:
            return 'too high'
        total += v
        if total > MAX:
            return 'total'
    pts = [v[:2] for v in m.vin]
    if len(set(pts)) != len(pts):
        return 'duplicate'
    null = (bytes(32), btc.MASK32)
    if len(pts) == 1 and pts[0] == null:
        if not 2 <= len(m.vin[0][2]) <= 100:
            return 'coinbase script'
    elif null in pts:
        return 'null input'
    return None


def good(rng):
    m = btc.gen_tx(rng, rng.choice((1, 1, 2, 3, 6)), rng.choice((1, 1, 2, 3, 6)), 60)
    left = MAX if rng.random() < 0.6 else gen.int_in(rng, 0, MAX)
    for k, (v, s) in enumerate(m.vout):
        v = gen.int_in(rng, 0, left)
        if rng.random() < 0.3 and k == len(m.vout) - 1:
            v = left
        left -= v
        m.vout[k] = (v, s)
    if rng.random() < 0.3:
        m.vin = [(bytes(32), btc.MASK32, gen.blob(rng, rng.choice((2, 3, 50, 99, 100))), btc.MASK32)]
    return m


def spoil(rng, m):
    r = rng.randrange(12)
    k = rng.randrange(len(m.vin)) if m.vin else None
    j = rng.randrange(len(m.vout)) if m.vout else None
    if r == 0:
        m.vin = []
    elif r == 1:
        m.vout = []
    elif r == 2 and j is not None:
        m.vout[j] = (rng.choice((-1, -2**63, -gen.int_in(rng, 1, 2**62))), m.vout[j][1])
    elif r == 3 and j is not None:
        m.vout[j] = (rng.choice((MAX, MAX + 1, 2**63 - 1, MAX - 1, gen.int_in(rng, 0, 2**63 - 1))), m.vout[j][1])
    elif r == 4 and j is not None:
        rest = sum(v for x, (v, _) in enumerate(m.vout) if x != j)
        m.vout[j] = (max(-2**63, min(2**63 - 1, MAX - rest + rng.choice((-1, 0, 1)))), m.vout[j][1])
    elif r == 5 and k is not None:
        x = m.vin[k]
        m.vin.insert(rng.randint(0, len(m.vin)), x[:2] + (gen.blob(rng, 3), gen.int_in(rng, 0, btc.MASK32)))
    elif r == 6 and k is not None:
        m.vin[k] = (bytes(32), btc.MASK32) + m.vin[k][2:]
    elif r == 7 and k is not None:
        m.vin[k] = rng.choice(((bytes(32), btc.MASK32 - 1), (bytes(32), 0), (bytes(31) + b'\x01', btc.MASK32))) + m.vin[k][2:]
    elif r == 8:
        m.vin = [(bytes(32), btc.MASK32, gen.blob(rng, rng.choice((0, 1, 2, 3, 99, 100, 101, 102, 200))), gen.int_in(rng, 0, btc.MASK32))]
    elif r == 9 and k is not None:
        x = m.vin[k]                          # nearly the same input
        m.vin.append((x[0], x[1] ^ 1) + x[2:])
    elif r == 10:
        m.vin.append((bytes(32), btc.MASK32, b'ab', 0))
    elif r == 11 and m.vin:
        m.vin.append(m.vin[-1])
    return m


def judge(mon, m, real):
    why = reason(m)
    for t in real:
        if why is None:
            mon.call('CheckTransaction of a valid transaction', CheckTransaction, t)
        else:
            e = mon.raises('CheckTransaction (%s)' % why, CheckTransactionError, CheckTransaction, t)
            mon.check(isinstance(e, ValidationError), 'not a validation error')
    mon.state(why or 'valid', m.ser() if len(m.ser()) < 5000 else btc.dsha(m.ser()))
    mon.event('verdicts')


def edited(rng, mon, i):
    """One transaction, edited in place and checked again"""
    m = good(rng)
    real = m.real_mutable()
    for _ in range(8):
        judge(mon, m, [real])
        r = rng.random()
        m = good(rng) if r < 0.3 else spoil(rng, m.copy()) if r < 0.8 else btc.change_tx(rng, m)
        btc.become(real, m)


def case(rng, mon, i):
    for _ in range(10):
        m = good(rng)
        judge(mon, m, [m.real(), m.real_mutable()])
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            m = spoil(rng, m)
        judge(mon, m, [m.real(), m.real_mutable()])


def sizes(rng, mon, i):
    m = good(rng)
    want = 1000000 + rng.choice((-1, 0, 1, 2, 100, 1000, -1000, gen.int_in(rng, -500000, 3000000)))
    where = rng.randrange(2)
    body = len(m.ser())
    coinbase = m.vin[0][:2] == (bytes(32), btc.MASK32)
    if where == 0 and not coinbase:
        h, n, s, q = m.vin[0]
        pad = want - (body - len(s) - len(btc.compact(len(s)))) - 5
        m.vin[0] = (h, n, bytes(max(0, pad)), q)
    else:
        v, s = m.vout[0]
        pad = want - (body - len(s) - len(btc.compact(len(s)))) - 5
        m.vout[0] = (v, bytes(max(0, pad)))
    mon.state('size', len(m.ser()))
    judge(mon, m, [m.real()])


def many(rng, mon, i):
    """Many inputs or outputs, with the offence far from the start"""
    n = rng.choice((50, 200, 255, 256, 300, 1000))
    m = good(rng)
    m.vin = [(gen.blob(rng, 32) if rng.random() < 0.9 else bytes(32), k + rng.choice((0, 7)) * 100000, b'', btc.MASK32) for k in range(n)]
    m.vout = [(gen.int_in(rng, 0, MAX // n), b'') for _ in range(n)]
    judge(mon, m, [m.real()])
    a, b = rng.sample(range(n), 2)
    r = rng.randrange(5)
    if r == 0:
        m.vin[max(a, b)] = m.vin[min(a, b)]
    elif r == 1:
        m.vin[a] = (bytes(32), btc.MASK32, b'', 5)
    elif r == 2:
        m.vout[a] = (-1, b'')
    elif r == 3:
        m.vout[a] = (MAX - sum(v for v, _ in m.vout) + m.vout[a][0] + rng.choice((0, 1)), b'')
    else:
        m.vout[a] = (MAX + 1, b'')
    judge(mon, m, [m.real(), m.real_mutable()])


def wraps(rng, mon, i):
    """Totals that are small again modulo a power of two"""
    bits = rng.choice((52, 53, 54, 56, 60, 62, 63, 64, 64))
    total = 2**bits * (1 if bits > 62 else rng.choice((1, 1, 2, 3))) + rng.choice((0, 1, MAX, gen.int_in(rng, 0, MAX)))
    n = -(-total // MAX)
    each = total // n if rng.random() < 0.5 else MAX
    vals = []
    while total:
        vals.append(min(each, total))
        total -= vals[-1]
    if rng.random() < 0.5:
        vals.reverse()
    m = good(rng)
    m.vout = [(v, b'') for v in vals]
    judge(mon, m, [m.real()])
    mon.state('wrapping totals', (bits, sum(vals)))


def money(rng, mon, i):
    for _ in range(30):
        v = rng.choice((gen.int_in(rng, -2**65, 2**65), 0, -1, MAX, MAX + 1, MAX - 1))
        mon.same(MoneyRange(v), 0 <= v <= MAX, 'MoneyRange of %d' % v)
        t = CTxOut(v, CScript(b'\x51'))
        mon.same(t.is_valid(), 0 <= v <= MAX, 'is_valid of an output')
        mon.same(CTxOut(v, CScript(b'\x05a')).is_valid(), False, 'is_valid of an output with an invalid script')
        mon.state('money', v)
        b = rng.choice((b'\x51', b'\x61', b'\x02ab', b'\x6a', b'\x51\xff')) * rng.choice((1, 2, 100, 259, 260, 520, 521, 3334, 9999, 10000, 10001, 20000))
        end = rng.choice((b'', b'\x05a', b'\x4b', b'\x4c', b'\x4d\x05', b'\x4e\xff\xff\xff\xff', b'\x4d\xff\xff'))
        mon.same(CTxOut(v, CScript(b + end)).is_valid(), 0 <= v <= MAX and end == b'', 'is_valid of an output with a script of %d bytes' % len(b + end))
    mon.same(MAX_MONEY, MAX, 'MAX_MONEY')
    mon.same(COIN, 10**8, 'COIN')


SUITES = [Suite('edited', edited, 4000, 15000), Suite('transactions', case, 6000, 25000), Suite('sizes', sizes, 600, 1500), Suite('long lists', many, 800, 3000), Suite('wrapping totals', wraps, 120, 500), Suite('money', money, 600, 2000)]

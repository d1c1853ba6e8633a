"""Script predicates and signature operation counts"""
from harness.worker import Suite
from harness import gen
from harness.models import btc, script as S
from bitcoin.core import GetLegacySigOpCount
from bitcoin.core.script import CScript, FindAndDelete

RULE = ('arbitrary scripts, scripts one byte away from a recognised form, pushes of every encoding and length, unfinished pushes: '
        'P2SH, push-only, canonical, unspendable, validity, signature operation counts and deletion against independent '
        'definitions. Non-trivial: distinct scripts, by combined verdict.')


def special(rng):
    r = rng.randrange(9)
    h = gen.blob(rng, 20)
    if r == 0:
        s = b'\xa9\x14' + h + b'\x87'
        q = rng.random()
        if q < 0.5:
            k = rng.choice((0, 1, 22, rng.randrange(23)))
            s = s[:k] + bytes([rng.choice((0xa9, 0x14, 0x87, 0x88, 0xa8, 0x13, 0x15, rng.randrange(256)))]) + s[k + 1:]
        elif q < 0.7:
            s = rng.choice((s + b'\x87', s[:-1], b'\xa9\x4c\x14' + h + b'\x87', b'\x61' + s, b'\xa9\x13' + h[:19] + b'\x87', b'\xa9\x15' + h + b'a\x87'))
        return s
    if r == 1:
        return b'\x6a' + rng.choice((b'', S.gen_any(rng), b'\x05abc'))
    if r == 2:
        return b''.join(S.gen_push(rng) for _ in range(rng.randint(0, 5)))
    if r == 3:
        return b''.join(rng.choice((S.gen_push(rng), bytes([rng.choice((0, 0x4f, 0x50, 0x51, 0x60, 0x61))]))) for _ in range(rng.randint(1, 5)))
    if r == 4:
        v = rng.choice((0, 1, 15, 16, 17, 0x81, 0x80, 255, rng.randrange(256)))
        return rng.choice((b'\x01', b'\x4c\x01', b'\x4d\x01\x00', b'\x4e\x01\x00\x00\x00')) + bytes([v])
    if r == 5:
        n = rng.choice((0, 1, 2, 74, 75, 76, 77, 254, 255, 256, 257, 65534, 65535, 65536))
        d = gen.blob(rng, n)
        return S.gen_push(rng, d)
    if r == 6:
        out = b''
        for _ in range(rng.randint(1, 8)):
            out += bytes([rng.choice((0x4f, 0x50, 0x51, 0x52, 0x53, 0x5f, 0x60, 0x61, 0, rng.randrange(0x50, 0x62)))])
            out += bytes([rng.choice((0xae, 0xaf, 0xac, 0xad))]) * rng.choice((0, 1, 1, 2))
            if rng.random() < 0.2:
                out += btc.push(gen.data(rng, 40, 10))
        return out
    if r == 7:
        return S.gen_any(rng) + rng.choice((b'\x4c', b'\x4d\x05', b'\x4e\xff\xff', b'\x4b', b'\x4c\x05abcd', b'\x02\xac', b'\x03\xae\xae'))
    return b'\x76\xa9\x14' + h + b'\x88\xac'


def long_scripts(rng, mon, i):
    """The same verdicts for scripts of up to 100 KB"""
    unit = rng.choice((b'\x51', b'\x61', b'\x02ab', b'\xac', b'\x53\xae', b'\x51\xff', b'\x01\x05', b'\x4c\x01a', b'\x4c\x4c' + bytes(76)))
    n = rng.choice((519, 520, 521, 522, 9999, 10000, 10001, 20000, 65534, 65535, 65536, 70000))
    b = rng.choice((b'', b'\x6a', b'\x6a', b'\xa9\x14', b'\x00')) + unit * (n // len(unit)) + rng.choice((b'', b'\x05a', b'\x4d\x05', b'\x6a', b'\xac', b'\x87'))
    s = CScript(b)
    got = (s.is_p2sh(), s.is_push_only(), s.has_canonical_pushes(), s.is_unspendable(), s.is_valid(), s.GetSigOpCount(False), s.GetSigOpCount(True))
    want = (S.is_p2sh(b), S.push_only(b), S.canonical(b), b[:1] == b'\x6a', S.parse(b)[1], S.sigops(b, False), S.sigops(b, True))
    mon.same(got, want, 'verdicts on a script of %d bytes, %s...' % (len(b), b[:8].hex()))
    mon.state(repr(want), b)


def predicates(rng, mon, i):
    for _ in range(10):
        b = special(rng) if rng.random() < 0.6 else S.gen_any(rng)
        if rng.random() < 0.1:
            b = gen.mutate(rng, b)
        s = CScript(b)
        v = (S.is_p2sh(b), S.push_only(b), S.canonical(b), b[:1] == b'\x6a', S.parse(b)[1], S.sigops(b, False), S.sigops(b, True))
        d = 'script ' + b.hex()[:500]
        mon.same(mon.call('is_p2sh', s.is_p2sh), v[0], 'is_p2sh', d)
        mon.same(mon.call('is_push_only', s.is_push_only), v[1], 'is_push_only', d)
        mon.same(mon.call('has_canonical_pushes', s.has_canonical_pushes), v[2], 'has_canonical_pushes', d)
        mon.same(mon.call('is_unspendable', s.is_unspendable), v[3], 'is_unspendable', d)
        mon.same(mon.call('is_valid', s.is_valid), v[4], 'is_valid', d)
        mon.eq(mon.call('GetSigOpCount', s.GetSigOpCount, False), v[5], 'signature operations', d)
        mon.eq(mon.call('GetSigOpCount', s.GetSigOpCount, True), v[6], 'signature operations, accurately', d)
        mon.state(repr(v[:5]), b if len(b) < 200 else btc.dsha(b))


def p2sh(rng, mon, i):
    for _ in range(6):
        b = gen.blob(rng, rng.choice((0, 1, 22, 23, 100, 519, 520, 521, 600, gen.size(rng, 2000, 60))))
        s = CScript(b)
        want = b'\xa9\x14' + btc.hash160(b) + b'\x87'
        if len(b) > 520:
            mon.raises('P2SH script of %d bytes' % len(b), ValueError, s.to_p2sh_scriptPubKey)
            mon.raises('P2SH script of %d bytes' % len(b), ValueError, s.to_p2sh_scriptPubKey, True)
        else:
            mon.same(bytes(mon.call('to_p2sh_scriptPubKey', s.to_p2sh_scriptPubKey)), want, 'P2SH script')
        r = mon.call('to_p2sh_scriptPubKey', s.to_p2sh_scriptPubKey, checksize=False)
        mon.same(bytes(r), want, 'P2SH script, unchecked')
        mon.check(type(r) is CScript and r.is_p2sh(), 'P2SH script not recognised')
        mon.state('redeem script', b)


def deletion(rng, mon, i):
    """FindAndDelete of whole operations"""
    for _ in range(8):
        pool = [S.gen_push(rng, gen.data(rng, 80, 5)) for _ in range(3)] + [bytes([rng.randrange(0x4f, 256)]) for _ in range(3)] + [b'\xab', b'\x00']
        s = b''.join(rng.choice(pool) for _ in range(rng.randint(0, 12)))
        pat = rng.choice(pool)
        if rng.random() < 0.4:
            # ends inside of a push, perhaps just behind what is deleted, or one of the same data
            p = rng.choice((S.gen_push(rng, gen.data(rng, 80, 5) + b'\x01'), pat + b'\x4c', b'\x4d\x05', b'\x4e' + pat, pat + b'\x02\x01', b'\x4c' + bytes([len(pat) + 1]) + pat, b'\x4c', b'\x05' + pat[:4]))
            s += p[:rng.randint(1, len(p))]
        mon.same(bytes(mon.call('FindAndDelete', FindAndDelete, CScript(s), CScript(pat))), S.delete(s, pat), 'deletion of %s from %s' % (pat.hex(), s.hex()))
        mon.state('deletion', (s, pat))


def total(rng, mon, i):
    m = btc.gen_tx(rng, rng.randint(0, 4), rng.randint(0, 4))
    m.vin = [v[:2] + (special(rng), v[3]) for v in m.vin]
    m.vout = [(v, special(rng)) for v, _ in m.vout]
    want = sum(S.sigops(v[2], False) for v in m.vin) + sum(S.sigops(s, False) for _, s in m.vout)
    for t in (m.real(), m.real_mutable()):
        mon.eq(mon.call('GetLegacySigOpCount', GetLegacySigOpCount, t), want, 'GetLegacySigOpCount')
        mon.eq(GetLegacySigOpCount(t), want, 'GetLegacySigOpCount asked again')
    mon.state('transaction', m.ser())
    # and edited in place
    for _ in range(3):
        r = rng.random()
        if r < 0.4 and m.vin:
            j = rng.randrange(len(m.vin))
            m.vin[j] = m.vin[j][:2] + (special(rng), m.vin[j][3])
        elif r < 0.8 and m.vout:
            j = rng.randrange(len(m.vout))
            m.vout[j] = (m.vout[j][0], special(rng))
        elif r < 0.9:
            m.vout.append((1, special(rng)))
        else:
            m.vin = m.vin[:-1]
        want = sum(S.sigops(v[2], False) for v in m.vin) + sum(S.sigops(s, False) for _, s in m.vout)
        mon.eq(GetLegacySigOpCount(btc.become(t, m)), want, 'GetLegacySigOpCount of an edited transaction')


SUITES = [Suite('long scripts', long_scripts, 96, 600), Suite('predicates', predicates, 30000, 60000), Suite('p2sh', p2sh, 4800, 10000), Suite('deletion', deletion, 14400, 30000),
          Suite('transactions', total, 7200, 20000)]

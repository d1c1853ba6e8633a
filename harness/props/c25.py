"""CheckBlock, block headers, proof of work and compact targets"""
import time
from fractions import Fraction
from harness.worker import Suite
from harness import gen
from harness.models import btc, script as S
from harness.props import c24
import bitcoin
import bitcoin.core as core
from bitcoin.core import (CBlock, CBlockHeader, CheckBlock, CheckBlockHeader, CheckProofOfWork, CheckBlockError, CheckBlockHeaderError,
                          CheckProofOfWorkError, ValidationError, GetLegacySigOpCount)
from bitcoin.core.serialize import uint256_from_compact

RULE = ('blocks built valid (and mined, on the regression test chain) and then changed in zero to two respects around every rule and '
        'limit, checked with every combination of options; proof of work at, just under and just over the target for every '
        'chain; compact targets of every size. Verdicts against an independent statement of the rules. Non-trivial: distinct '
        'blocks, targets and hashes, by reason.')
LIMITS = {'mainnet': 2**224 - 1, 'testnet': 2**224 - 1, 'regtest': 2**255 - 1}


def compact_value(c):
    size, word = c >> 24 & 0xff, c & 0x7fffff
    v = word * 256 ** (size - 3) if size >= 3 else word // 256 ** (3 - size)
    return -v if c & 0x800000 else v


def gen_bits(rng):
    r = rng.random()
    if r < 0.3:
        return gen.int_in(rng, 0, btc.MASK32)
    size = rng.choice((0, 1, 2, 3, 4, 5, 0x1c, 0x1d, 0x1e, 0x1f, 0x20, 0x21, 0x22, 0x23, rng.randrange(256)))
    word = rng.choice((0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff, 0x800000, 0x800001, 0xffffff, rng.randrange(1 << 24)))
    return size << 24 | word


def compacts(rng, mon, i):
    for _ in range(40):
        c = gen_bits(rng)
        mon.same(uint256_from_compact(c), compact_value(c), 'target of 0x%08x' % c)
        mon.state('compact', c)
        word = c & 0xffffff
        if word:
            want = Fraction(0xffff, word) * Fraction(256) ** (29 - (c >> 24))
            got = Fraction(mon.call('calc_difficulty', CBlockHeader.calc_difficulty, c))
            mon.check(abs(got - want) <= want / 10**12 or want < Fraction(1, 10**300), 'difficulty of 0x%08x' % c, float(got), float(want))
            mon.check(CBlockHeader(nBits=c).difficulty == CBlockHeader.calc_difficulty(c), 'difficulty of a header')
        else:
            mon.same(mon.call('calc_difficulty', CBlockHeader.calc_difficulty, c), float('inf'), 'difficulty of 0x%08x' % c)
            mon.same(mon.call('difficulty', getattr, CBlockHeader(nBits=c), 'difficulty'), float('inf'), 'difficulty of a header')


def pow_reason(h, bits, limit):
    t = compact_value(bits)
    if not 0 < t <= limit:
        return 'range'
    if int.from_bytes(h, 'little') > t:
        return 'work'
    return None


def work(rng, mon, i):
    chain = rng.choice(('mainnet', 'testnet', 'regtest'))
    bitcoin.SelectParams(chain)
    try:
        for _ in range(30):
            bits = rng.choice((gen_bits(rng), 0x1d00ffff, 0x1c00ffff, 0x207fffff, 0x1b0404cb, 0x1d00fffe, 0x1d010000, 0x1e0000ff, 0x2100ffff, 0x20800000,
                               0x1f00ffff, 0x03000001, 0x02008000, 0x01003456))
            t = compact_value(bits)
            h = rng.choice((t, t + 1, t - 1, 0, 2**256 - 1, gen.int_in(rng, 0, 2**256 - 1), t ^ 1 if t > 0 else 1, max(0, t) >> 1, abs(t) * 2))
            h = max(0, min(2**256 - 1, h)).to_bytes(32, 'little')
            why = pow_reason(h, bits, LIMITS[chain])
            if why is None:
                mon.call('CheckProofOfWork', CheckProofOfWork, h, bits)
            else:
                mon.raises('CheckProofOfWork (%s, 0x%08x)' % (why, bits), CheckProofOfWorkError, CheckProofOfWork, h, bits)
            mon.state('work ' + (why or 'enough'), (chain, h, bits))
    finally:
        bitcoin.SelectParams('mainnet')


def headers(rng, mon, i):
    bitcoin.SelectParams('regtest')
    try:
        now = gen.int_in(rng, 7300, 2**32 - 1) if rng.random() < 0.8 else rng.choice((0, 0, 1, 7200, 2**32 - 1))
        for _ in range(10):
            m = btc.gen_header(rng)
            m.bits = rng.choice((0x207fffff, 0x207fffff, 0x2000ffff, 0x1f7fffff, gen_bits(rng)))
            m.time = max(0, min(btc.MASK32, now + 7200 + rng.choice((0, 0, 1, -1, 2, -7200, 100000, -100000, gen.int_in(rng, -2**31, 2**31)))))
            h = CBlockHeader(*m.args())
            powc = pow_reason(btc.dsha(m.ser()), m.bits, LIMITS['regtest'])
            late = m.time > now + 7200
            for check in (True, False):
                cls = CheckProofOfWorkError if check and powc else CheckBlockHeaderError if late else None
                kw = dict(fCheckPoW=check, cur_time=now + rng.choice((0, 0.0)))
                if cls is None:
                    mon.call('CheckBlockHeader', CheckBlockHeader, h, **kw)
                else:
                    e = mon.raises('CheckBlockHeader', cls, CheckBlockHeader, h, **kw)
                    mon.check(isinstance(e, ValidationError), 'not a validation error')
                mon.state('header', (cls.__name__ if cls else 'valid', m.ser(), check))
        # the clock, when none is given
        t = int(time.time())
        for d, ok in ((-100000, True), (7200 - 300, True), (7200 + 300, False), (100000, False)):
            h = CBlockHeader(nTime=t + d, nBits=0x207fffff)
            if ok:
                mon.call('CheckBlockHeader by the clock', CheckBlockHeader, h, False)
            else:
                mon.raises('CheckBlockHeader by the clock', CheckBlockHeaderError, CheckBlockHeader, h, False)
    finally:
        bitcoin.SelectParams('mainnet')


NULL = (bytes(32), btc.MASK32)


def is_cb(t):
    return len(t.vin) == 1 and t.vin[0][:2] == NULL


def reason(m, powc, merkle, now, limit):
    if powc:
        why = pow_reason(btc.dsha(m.header.ser()), m.header.bits, limit)
        if why:
            return 'work'
    if m.header.time > now + 7200:
        return 'time'
    if not m.txs:
        return 'empty'
    if len(m.ser()) > 1000000:
        return 'size'
    if not is_cb(m.txs[0]):
        return 'no coinbase'
    ids, ops = set(), 0
    for k, t in enumerate(m.txs):
        if k and is_cb(t):
            return 'two coinbases'
        why = c24.reason(t)
        if why:
            return 'transaction: ' + why
        if t.txid() in ids:
            return 'duplicate transaction'
        ids.add(t.txid())
        ops += legacy(t)
        if ops > 20000:
            return 'sigops'
    if merkle and m.header.merkle != btc.merkle_root([t.txid() for t in m.txs]):
        return 'merkle'
    return None


def legacy(t):
    return sum(S.sigops(v[2], False) for v in t.vin) + sum(S.sigops(s, False) for _, s in t.vout)


def plain_tx(rng):
    while True:
        t = c24.good(rng)
        if not is_cb(t):
            return t


def good_block(rng, ntx=None):
    cb = btc.MTx(1, [NULL + (gen.blob(rng, rng.choice((2, 4, 50, 100))), btc.MASK32)], [(gen.int_in(rng, 0, 50 * 10**8), b'\x51')], 0)
    m = btc.MBlock(btc.gen_header(rng), [cb] + [plain_tx(rng) for _ in range(rng.choice((0, 1, 2, 3, 6)) if ntx is None else ntx)])
    m.header.bits = 0x207fffff
    return m


def seal(rng, m, mine=True):
    if m.txs:
        m.header.merkle = btc.merkle_root([t.txid() for t in m.txs])
    if mine:
        work_(m)


def work_(m, want=True):
    m.header.nonce = 0
    while (pow_reason(btc.dsha(m.header.ser()), m.header.bits, LIMITS['regtest']) is None) != want:
        m.header.nonce += 1


def filler(n):
    """n bytes of script, nearly all in one push"""
    return b'\x4e' + max(0, n - 5).to_bytes(4, 'little') + bytes(n - 5) if n >= 5 else b'\x51' * n


def ops_script(rng, n, exact=False):
    """A script of n signature operations"""
    out = []
    while n > 0:
        if n >= 20 and rng.random() < 0.95:
            k = rng.randint(1, n // 20)
            out.append(bytes([rng.choice((0xae, 0xaf))]) * k if rng.random() < 0.7 else b'\x53\xae' * k)
            n -= 20 * k
        else:
            k = rng.randint(1, min(n, 40))
            out.append(bytes([rng.choice((0xac, 0xad))]) * k)
            n -= k
    if rng.random() < 0.3:
        out.append(b'\x02\xac\xac')             # in data: none
    if rng.random() < 0.3:
        out.append(b'\x4d\xff')                 # unfinished push after them
    return b''.join(out)


def spoil(rng, m, now):
    r = rng.randrange(15)
    k = rng.randrange(len(m.txs)) if m.txs else 0
    again = rng.random() < 0.8
    if r == 0:
        m.txs = []
    elif r == 1:
        m.txs = m.txs[1:]
    elif r == 2:
        m.txs.insert(rng.randint(0, len(m.txs)), btc.MTx(2, [NULL + (b'abc', 0)], [(0, b'')], 0))
    elif r == 3 and len(m.txs) > 1:
        m.txs.append(m.txs[rng.randrange(1, len(m.txs))])
    elif r == 4 and m.txs:
        m.txs[k] = c24.spoil(rng, m.txs[k].copy())
    elif r == 5:
        m.txs.reverse()
    elif r == 6 and m.txs:
        m.header.merkle = rng.choice((bytes(32), btc.merkle_root([t.txid() for t in m.txs[::-1]]), m.header.merkle[::-1],
                                      btc.merkle_root([t.txid() for t in m.txs + m.txs[-1:]])))
        again = False
    elif r == 7 and m.txs:
        m.txs[k] = btc.change_tx(rng, m.txs[k])
        again = False
    elif r == 8 and m.txs:
        have = sum(legacy(t) for t in m.txs)
        s = ops_script(rng, 20000 - have + rng.choice((-1, 0, 0, 1, 1, 20)))
        t = m.txs[k].copy()
        if rng.random() < 0.5 and not is_cb(t) and t.vin:
            t.vin[-1] = t.vin[-1][:2] + (t.vin[-1][2][:0] + s, 0)
        elif t.vout:
            t.vout[-1] = (t.vout[-1][0], s)
        m.txs[k] = t
    elif r == 9 and m.txs and m.txs[k].vout:
        t = m.txs[k].copy()
        v, s = t.vout[0]
        t.vout[0] = (v, filler(max(0, 1000000 - len(m.ser()) + len(s) + len(btc.compact(len(s))) - 5 + rng.choice((-1, 0, 0, 1, 1, 2)))))
        m.txs[k] = t
    elif r == 10:
        m.header.time = min(btc.MASK32, now + 7200 + rng.choice((0, 1, -1, 100000)))
    elif r == 11:
        m.header.bits = rng.choice((0x207fffff, 0x2000ffff, 0x1f00ffff, 0x20ffffff, 0x21008000, 0x1d00ffff, 0))
        again = False
    elif r == 12:
        work_(m, False) if m.header.bits == 0x207fffff else None
        return
    elif r == 13 and len(m.txs) > 1:
        # the tail repeated: same merkle root
        n = len(m.txs)
        m.txs = m.txs + m.txs[-(n & -n):]
    elif r == 14 and len(m.txs) > 1:
        a = rng.randrange(len(m.txs))
        m.txs[a], m.txs[k] = m.txs[k], m.txs[a]
        again = rng.random() < 0.5
    if again:
        seal(rng, m, False)
    if m.header.bits == 0x207fffff and rng.random() < 0.85:
        work_(m)


def judge(rng, mon, m, now):
    b = m.real() if rng.random() < 0.5 else CBlock.deserialize(m.ser())
    for powc, merkle in ((True, True), (False, True), (True, False), (False, False)):
        why = reason(m, powc, merkle, now, LIMITS['regtest'])
        kw = dict(fCheckPoW=powc, fCheckMerkleRoot=merkle, cur_time=now)
        if why is None:
            mon.call('CheckBlock of a valid block', CheckBlock, b, **kw)
        else:
            e = mon.raises('CheckBlock (%s)' % why, ValidationError, CheckBlock, b, **kw)
            if why == 'work':
                mon.check(isinstance(e, CheckProofOfWorkError), 'insufficient work reported as %s' % type(e).__name__)
        mon.state(why or 'valid', (btc.dsha(m.ser()), powc, merkle))
        mon.event('verdicts')
    for t in m.txs:
        mon.eq(GetLegacySigOpCount(t.real()), legacy(t), 'GetLegacySigOpCount')


def blocks(rng, mon, i):
    bitcoin.SelectParams('regtest')
    try:
        now = gen.int_in(rng, 100000, 2**32 - 100000) if rng.random() < 0.8 else rng.choice((0, 0, 1, 7200))
        m = good_block(rng)
        m.header.time = max(0, now - rng.choice((0, 600, 100000)))
        seal(rng, m)
        judge(rng, mon, m, now)
        for _ in range(3):
            spoil(rng, m, now)
            judge(rng, mon, m, now)
    finally:
        bitcoin.SelectParams('mainnet')


def bounds(rng, mon, i):
    """Right at the size and signature operation limits"""
    bitcoin.SelectParams('regtest')
    try:
        now = 10**9
        for d in (-1, 0, 1):
            m = good_block(rng, rng.randint(0, 3))
            m.header.time = now
            k = rng.randrange(len(m.txs))
            t = m.txs[k].copy()
            v, s = t.vout[0]
            t.vout[0] = (v, filler(0x10000))
            m.txs[k] = t
            t.vout[0] = (v, filler(0x10000 + 1000000 - len(m.ser()) + d))
            seal(rng, m)
            mon.eq(len(m.ser()), 1000000 + d, 'harness: block size')
            judge(rng, mon, m, now)
            m = good_block(rng, rng.randint(0, 3))
            m.header.time = now
            have = sum(legacy(t) for t in m.txs)
            parts = [20000 + d - have]
            if rng.random() < 0.5:
                x = rng.randint(0, parts[0])
                parts = [x, parts[0] - x]
            for n in parts:
                k = rng.randrange(len(m.txs))
                t = m.txs[k].copy()
                t.vout.append((0, ops_script(rng, n)))
                m.txs[k] = t
            seal(rng, m)
            mon.eq(sum(legacy(t) for t in m.txs), 20000 + d, 'harness: signature operations')
            judge(rng, mon, m, now)
    finally:
        bitcoin.SelectParams('mainnet')


def genesis(rng, mon, i):
    ids = {'mainnet': '000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f',
           'testnet': '000000000933ea01ad0ee984209779baaec3ced90fa3f408719526f8d77f4943',
           'regtest': '0f9188f13cb7b2c71f2a335e3a4fc328bf5beb436012afca590b1a11466e2206'}
    for chain, h in ids.items():
        bitcoin.SelectParams(chain)
        try:
            g = bitcoin.params.GENESIS_BLOCK
            mon.eq(g.GetHash()[::-1].hex(), h, 'genesis block of ' + chain)
            mon.call('CheckBlock of the genesis block of ' + chain, CheckBlock, g)
            bad = CBlock(*[getattr(g, f) if f != 'nNonce' else g.nNonce + 1 for f in
                           ('nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce')], vtx=g.vtx)
            if chain != 'regtest':
                mon.raises('genesis block with another nonce', CheckProofOfWorkError, CheckBlock, bad)
            mon.state('genesis', h)
        finally:
            bitcoin.SelectParams('mainnet')


SUITES = [Suite('compact', compacts, 2000, 6000), Suite('work', work, 2000, 6000), Suite('headers', headers, 1500, 4000),
          Suite('blocks', blocks, 6000, 15000), Suite('bounds', bounds, 40, 300), Suite('genesis', genesis, 1, 1, serial=True)]

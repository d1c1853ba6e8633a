"""VerifyScript and VerifySignature with real signatures"""
from harness.worker import Suite
from harness import gen
from harness.models import btc, secp, script as S, spend
from bitcoin.core import ValidationError
from bitcoin.core.script import CScript, SignatureHash
from bitcoin.core.scripteval import (VerifyScript, VerifySignature, VerifySignatureError, VerifyScriptError, SCRIPT_VERIFY_P2SH,
                                     SCRIPT_VERIFY_STRICTENC, SCRIPT_VERIFY_EVEN_S, SCRIPT_VERIFY_NOCACHE)
from bitcoin.wallet import CKey

RULE = ('outputs of every standard form (and inside P2SH) spent with signatures of every hash type made by an independent signer or '
        'by the library; then each part damaged: signature, key, script, transaction, index, referenced output. Verdict against '
        'an independent verifier. Non-trivial: distinct (scriptSig, scriptPubKey, transaction).')


def scene(rng, kind=None):
    """Spent transaction, spending transaction, index, lock"""
    lock = spend.Lock(rng, kind)
    wrap = rng.random() < 0.4 and len(lock.script) <= 520
    spk = b'\xa9\x14' + btc.hash160(lock.script) + b'\x87' if wrap else lock.script
    src = btc.gen_tx(rng, rng.randint(1, 2), rng.randint(1, 4), 40)
    n = rng.randrange(len(src.vout))
    src.vout[n] = (src.vout[n][0], spk)
    m = btc.gen_tx(rng, rng.randint(1, 4), rng.randint(0, 4), 40)
    k = rng.randrange(len(m.vin))
    m.vin[k] = (src.txid(), n) + m.vin[k][2:]
    return lock, wrap, spk, src, m, k


def complete(lock, wrap, ss):
    return ss + btc.push(lock.script) if wrap else ss


def judge(mon, ss, spk, m, k, p2sh, note, mutable=None):
    want = S.verify(ss, spk, m, k, p2sh)
    flags = (SCRIPT_VERIFY_P2SH,) if p2sh else ()
    real = m.real() if mutable is None else btc.become(mutable, m)
    d = '%s: scriptSig %s scriptPubKey %s input %d of %s' % (note, ss.hex(), spk.hex(), k, m.ser().hex())
    if want:
        try:
            mon.event('calls')
            VerifyScript(CScript(ss), CScript(spk), real, k, flags)
        except Exception as e:
            mon.fail('valid spend refused: %s: %s' % (type(e).__name__, str(e)[:200]), d[:4000])
    else:
        try:
            mon.event('calls')
            VerifyScript(CScript(ss), CScript(spk), real, k, set(flags) if k % 2 else flags)
        except ValidationError:
            mon.event('refused')
        except Exception as e:
            mon.fail('invalid spend raised %s: %s' % (type(e).__name__, str(e)[:200]), d[:4000])
        else:
            mon.fail('invalid spend accepted', d[:4000])
    mon.state('%s, %s' % (note, 'valid' if want else 'invalid'), btc.dsha(ss + b'|' + spk + m.ser()))
    return want


def spends(rng, mon, i):
    lock, wrap, spk, src, m, k = scene(rng)
    ss0, sigs = lock.satisfy(rng, m, k)
    ss = complete(lock, wrap, ss0)
    one = m.real_mutable() if rng.random() < 0.5 else None     # the same object throughout, edited in place
    if rng.random() < 0.5:
        judge(mon, ss, spk, m, k, False, 'spend without P2SH', one)
    valid = judge(mon, ss, spk, m, k, True, 'spend', one)
    mon.check(valid, 'harness: the spend is not valid', (lock.kind, wrap))
    judge(mon, ss, spk, m, k, False, 'spend without P2SH', one)
    # the same through the transactions (which does not unwrap P2SH)
    m.vin[k] = m.vin[k][:2] + (ss, m.vin[k][3])
    mon.call('VerifySignature of a valid spend', VerifySignature, src.real(), m.real(), k)
    for _ in range(4):
        c, kk, ss2, spk2 = m.copy(), k, ss, spk
        r = rng.randrange(10)
        note = 'changed transaction'
        if r <= 2:
            c = btc.change_tx(rng, c)
        elif r == 3:
            note = 'changed signature'
            sig = rng.choice(sigs) if sigs else b''
            rs = secp.parse_der(sig[:-1])
            if rs is None:
                continue
            a, b = rs
            q = rng.randrange(6)
            new = (secp.der(a, secp.N - b), secp.der(b, a), secp.der(a, b % (secp.N - 1) + 1), secp.der(a % (secp.N - 1) + 1, b), secp.der(a, b), secp.der(0, b))[q]
            t = sig[-1] if q < 4 else rng.choice((sig[-1] ^ 0x80, 1, 2, 3, 0x81))
            ss2 = ss.replace(btc.push(sig), btc.push(new + bytes([t])))
            note = 'high or low s' if q == 0 else note
        elif r == 4 and len(m.vin) > 1:
            note = 'another input'
            kk = rng.randrange(len(m.vin))
        elif r == 5 and not wrap:
            note = 'changed script'
            spk2 = spk.replace(btc.push(lock.keys[0].pub), btc.push(spend.key(rng).pub))
        elif r == 6:
            note = 'missing pieces'
            ops, ok = S.parse(ss)
            cut = rng.randrange(len(ops)) if ops else 0
            ss2 = b''.join(ss[at:(ops[j + 1][2] if j + 1 < len(ops) else len(ss))] for j, (_, _, at) in enumerate(ops) if j != cut)
        elif r == 7:
            note = 'extra pieces'
            ss2 = rng.choice((b'\x51' + ss, b'\x61' + ss, ss + b'\x51', ss + b'\x00', b'\x01a\x75' + ss))
        elif r == 8 and wrap:
            note = 'another redeem script'
            other = rng.choice((lock.script + b'\x61', b'\x51', lock.script[:-1]))
            ss2 = ss0 + btc.push(other)
            if rng.random() < 0.5:
                note = 'its hash'
                spk2 = b'\xa9\x14' + btc.hash160(other) + b'\x87'
        elif r == 9:
            note = 'another signer'
            who = spend.Lock(rng, lock.kind)
            ss2 = complete(lock, wrap, who.satisfy(rng, m, k)[0])
        else:
            continue
        if kk < len(c.vin) and S.parse(ss2)[1] and S.parse(spk2)[1]:
            judge(mon, ss2, spk2, c, kk, rng.random() < 0.8, note, one)
            if rng.random() < 0.2:
                judge(mon, ss, spk, m, k, True, 'spend again', one)


def through(rng, mon, i):
    """VerifySignature looks the output up"""
    lock, wrap, spk, src, m, k = scene(rng, rng.choice(('pk', 'pkh', 'multi')))
    spk = lock.script
    n = m.vin[k][1]
    src.vout[n] = (src.vout[n][0], spk)
    m.vin[k] = (src.txid(), n) + m.vin[k][2:]
    ss, sigs = lock.satisfy(rng, m, k)
    m.vin[k] = m.vin[k][:2] + (ss, m.vin[k][3])
    f, t = src.real(), m.real()
    mon.call('VerifySignature of a valid spend', VerifySignature, f, t, k)
    mon.call('VerifySignature of a valid spend', VerifySignature, src.real_mutable(), m.real_mutable(), k)
    mon.state('spend', m.ser())
    for bad in (-1, len(m.vin), len(m.vin) + 1, -len(m.vin), 2**31):
        mon.raises('VerifySignature of input %d of %d' % (bad, len(m.vin)), VerifySignatureError, VerifySignature, f, t, bad)
    # another transaction, even with the same outputs
    other = src.copy()
    other.locktime ^= 1
    mon.raises('VerifySignature against another transaction', VerifySignatureError, VerifySignature, other.real(), t, k)
    # nor any other transaction id than that of the transaction, once signed for
    c = m.copy()
    c.vin[k] = (gen.twin(rng, c.vin[k][0]),) + c.vin[k][1:]
    c.vin[k] = c.vin[k][:2] + (lock.satisfy(rng, c, k)[0], c.vin[k][3])
    mon.raises('VerifySignature of a spend of another transaction', VerifySignatureError, VerifySignature, f, c.real(), k)
    c = m.copy()
    c.vin[k] = (c.vin[k][0], len(src.vout) + rng.choice((0, 1, 2**31))) + c.vin[k][2:]
    mon.raises('VerifySignature of an output that does not exist', VerifySignatureError, VerifySignature, f, c.real(), k)
    if len(src.vout) > 1:
        c = m.copy()
        j = (n + 1) % len(src.vout)
        c.vin[k] = (c.vin[k][0], j) + c.vin[k][2:]
        want = S.verify(ss, src.vout[j][1], c, k, False)
        if want:
            mon.call('VerifySignature', VerifySignature, f, c.real(), k)
        elif S.parse(src.vout[j][1])[1]:
            mon.raises('VerifySignature of another output', ValidationError, VerifySignature, f, c.real(), k)
    c = btc.change_tx(rng, m)
    if len(c.vin) > k and c.vin[k][:2] == m.vin[k][:2] and S.parse(c.vin[k][2])[1]:
        if S.verify(c.vin[k][2], spk, c, k, False):
            mon.call('VerifySignature after a change not covered', VerifySignature, f, c.real(), k)
        else:
            mon.raises('VerifySignature after a change', ValidationError, VerifySignature, f, c.real(), k)


def library(rng, mon, i):
    """Signed by the library, verified by the library and by the model"""
    m = btc.gen_tx(rng, rng.randint(1, 3), rng.randint(0, 3), 40)
    k = rng.randrange(len(m.vin))
    secret = rng.randrange(1, secp.N).to_bytes(32, 'big')
    for comp in (True, False):
        key = CKey(secret, comp)
        spk = b'\x76\xa9\x14' + btc.hash160(bytes(key.pub)) + b'\x88\xac'
        t = rng.choice(spend.HASHTYPES)
        sig = None
        if not (t & 0x1f == 3 and k >= len(m.vout)):
            h = SignatureHash(CScript(spk), m.real(), k, t)
            sig = key.sign(h) + bytes([t])
            ss = btc.push(sig) + btc.push(bytes(key.pub))
            mon.check(judge(mon, ss, spk, m, k, True, 'library signature'), 'signature of the library is not valid', secret.hex(), h.hex())
            judge(mon, ss, spk, btc.change_tx(rng, m), 0 if k == 0 else k - 1, True, 'library signature, another input')


FLAGS = (SCRIPT_VERIFY_P2SH, SCRIPT_VERIFY_STRICTENC, SCRIPT_VERIFY_EVEN_S, SCRIPT_VERIFY_NOCACHE)


def forged(rng, mon, i):
    """Outputs to keys that are none, and signatures that anyone could make for them"""
    m = btc.gen_tx(rng, rng.randint(1, 3), rng.randint(1, 3), 40)
    k = rng.randrange(len(m.vin))
    pub = spend.bad_pub(rng)
    t = rng.choice((1, 2, 0x81))
    spk = rng.choice((btc.push(pub) + b'\xac', b'\x76\xa9\x14' + btc.hash160(pub) + b'\x88\xac', b'\x51' + btc.push(pub) + b'\x51\xae'))
    ss = btc.push(spend.forge(rng, S.sighash(spk, m, k, t)[0]) + bytes([t]))
    if spk[0] == 0x51:
        ss = b'\x00' + ss
    elif spk[0] == 0x76:
        ss += btc.push(pub)
    mon.state('forged', pub)
    mon.check(not judge(mon, ss, spk, m, k, True, 'forged signature under an invalid key'), 'the model accepts a forged signature', pub.hex())
    redeem = b'\xa9\x14' + btc.hash160(spk) + b'\x87'
    if len(spk) <= 520:
        judge(mon, ss + btc.push(spk), redeem, m, k, True, 'forged signature under an invalid key, in P2SH')


def p2sh(rng, mon, i):
    """The rules of P2SH without signatures"""
    m = btc.gen_tx(rng, 1, 1, 30)
    for _ in range(12):
        inner = rng.choice((b'\x51', b'\x00', b'', b'\x75\x51', b'\x93\x53\x87', b'\x69', b'\x6a', b'\x05ab', b'\x61' * 201, b'\x61' * 202 + b'\x51', b'\x51\x63\x68', b'\x01\x80',
                            b'\xa9\x14' + btc.hash160(b'\x51') + b'\x87', S.gen_push(rng), bytes(521), b'\x51' * 520, b'\x61' * 100 + b'\x51\x63\x51\x68'))
        args = b''.join(rng.choice((b'\x51', b'\x52', b'\x00', btc.push(b'\x51'), b'\x50' if rng.random() < 0.1 else b'', b'\x61' if rng.random() < 0.3 else b'', b'\x51\x76' if rng.random() < 0.3 else b''))
                        for _ in range(rng.randint(0, 3)))
        ss = args + rng.choice((btc.push(inner), S.gen_push(rng, inner), btc.push(inner) + b'\x61', btc.push(inner) + b'\x76\x75', btc.push(inner[:-1])))
        h = btc.hash160(inner)
        spk = rng.choice((b'\xa9\x14' + h + b'\x87',) * 6 + (b'\xa9\x4c\x14' + h + b'\x87', b'\xa9\x14' + h + b'\x88\x51', b'\x61\xa9\x14' + h + b'\x87', b'\xa9\x14' + h[::-1] + b'\x87'))
        for p in (True, False):
            judge(mon, ss, spk, m, 0, p, 'P2SH rules')
    mon.eq(len(set(FLAGS)), 4, 'distinct flags')


def deep(rng, mon, i):
    """The redeem script finds everything that was under it, up to the limit on the stack"""
    m = btc.gen_tx(rng, 1, 1, 30)
    n = rng.choice((0, 1, 2, 16, 17, 100, 255, 256, 499, 500, 501, 512, 600, 996, 997, 998, 999, 1000, 1001, rng.randrange(1003)))
    small = [rng.choice((b'\x51', b'\x52', b'\x60', b'\x4f', b'\x00', b'\x01\x30')) for _ in range(n)]
    for want in (n, n + 1, max(0, n - 1)):
        inner = rng.choice((b'\x74' + btc.push(S.num(want)) + b'\x87',                    # DEPTH n EQUAL
                            b'\x74' + btc.push(S.num(want)) + b'\x9c\x69\x51',
                            btc.push(S.num(max(0, want - 1))) + b'\x79\x51\x87',          # n-1 PICK 1 EQUAL
                            btc.push(S.num(max(0, want - 1))) + b'\x7a\x75\x74\x75\x51'))   # n-1 ROLL DROP DEPTH DROP 1
        ss = b''.join(small) + btc.push(inner)
        spk = b'\xa9\x14' + btc.hash160(inner) + b'\x87'
        for p in (True, False):
            judge(mon, ss, spk, m, 0, p, 'P2SH over many items')
    mon.state('items under the redeem script', n)


SUITES = [Suite('spends', spends, 1600, 12000), Suite('through', through, 1200, 10000), Suite('library', library, 500, 4000),
          Suite('p2sh', p2sh, 1200, 8000), Suite('deep', deep, 600, 4000), Suite('forged', forged, 480, 4000)]

"""Keys and signatures against secp256k1 in plain Python"""
import hashlib
from harness.worker import Suite
from harness import gen
from harness.models import btc, secp, spend
from bitcoin.core.key import CECKey, CPubKey
from bitcoin.wallet import CKey, CBitcoinSecret

RULE = ('secrets over the whole range and at its ends, public keys of every form and damaged ones, signatures made by the library '
        'and by an independent signer and then damaged, shared secrets; all against secp256k1 in plain Python. Non-trivial: '
        'distinct secrets, public keys and (key, digest, signature) triples by verdict.')


def gen_secret(rng):
    v = rng.choice((1, 2, 3, 7, secp.N - 1, secp.N - 2, (secp.N - 1) // 2, 2**255, gen.int_in(rng, 1, secp.N - 1), rng.randrange(1, secp.N), rng.randrange(1, secp.N)))
    return v.to_bytes(32, 'big')


def keys(rng, mon, i):
    s = gen_secret(rng)
    pt = secp.point(s)
    for comp in (True, False):
        want = secp.encode(pt, 'c' if comp else 'u')
        k = mon.call('CKey', CKey, s, comp)
        mon.same(bytes(k.pub), want, 'public key of %s' % s.hex())
        mon.same(k.is_compressed, comp, 'is_compressed')
        mon.check(k.pub.is_compressed == comp and k.pub.is_valid is True and k.pub.is_fullyvalid is True, 'properties of a public key')
        mon.check(isinstance(k.pub, CPubKey), 'not a CPubKey')
        e = CECKey()
        e.set_secretbytes(s)
        # the form is a truth value, such as a bit of a flag byte
        e.set_compressed(rng.choice((comp, int(comp), comp * 4, 'yes' * comp)))
        mon.same(e.get_pubkey(), want, 'get_pubkey')
        der = e.get_privkey()
        mon.check(s in der, 'private key encoding without the secret')
        f = CECKey()
        mon.check(f.set_privkey(der), 'private key encoding refused')
        f.set_compressed(comp)
        mon.same(f.get_pubkey(), want, 'public key of a decoded private key')
        if not comp:
            h = gen.blob(rng, 32)
            mon.check(secp.verify(want, h, f.sign(h)), 'signature by a decoded private key')
        # switching the form back and forth
        e.set_compressed(not comp)
        mon.same(e.get_pubkey(), secp.encode(pt, 'u' if comp else 'c'), 'other form')
    mon.state('secret', s)


def signing(rng, mon, i):
    s = gen_secret(rng)
    k = CKey(s, rng.random() < 0.5)
    pub = bytes(k.pub)
    for _ in range(3):
        h = gen.blob(rng, 32)
        sig = mon.call('sign', k.sign, h)
        mon.check(type(sig) is bytes, 'signature is a %s' % type(sig))
        mon.check(secp.parse_der(sig) is not None, 'signature is not strict DER: ' + sig.hex())
        mon.check(secp.verify(pub, h, sig), 'signature by the library is not valid', s.hex(), h.hex(), sig.hex())
        mon.same(k.pub.verify(h, sig), True, 'own signature')
        mon.same(CPubKey(pub).verify(h, sig), True, 'own signature, key decoded')
        mon.state('signed', (s, h))
    h = bytearray(h)
    h[rng.randrange(32)] ^= 1 << rng.randrange(8)
    mon.same(k.pub.verify(bytes(h), sig), False, 'signature over another digest')
    for bad in (b'', b'x', gen.blob(rng, 31), gen.blob(rng, 33), gen.blob(rng, 64)):
        mon.raises('signing %d bytes' % len(bad), ValueError, k.sign, bad)
    for bad in ('a' * 32, None, 5, bytearray(32), list(bytes(32))):
        mon.raises('signing a %s' % type(bad).__name__, TypeError, k.sign, bad)


def verdicts(rng, mon, i):
    key = spend.Key(rng)
    other = spend.key(rng)
    h = gen.blob(rng, 32)
    sig = key.sign(h, rng.random() < 0.5)
    p = mon.call('CPubKey', CPubKey, key.pub)
    r, s = secp.parse_der(sig)
    cases = [(p, key.pub, h, sig), (CPubKey(other.pub), other.pub, h, sig), (p, key.pub, gen.twin(rng, h), sig)]
    for _ in range(6):
        a, b = rng.choice(((r, secp.N - s), (s, r), (r + 1, s), (r, s ^ 1 << rng.randrange(255)), (0, s), (r, 0), (0, 0), (r, s + secp.N), (r + secp.N, s), (secp.N, s), (r, secp.N),
                           (secp.P, s), (1, 1), (secp.N - r, s), (r ^ 1 << rng.randrange(255), s)))
        cases.append((p, key.pub, h, secp.der(a, b)))
    garbage = [b'', b'\x30', b'\x00' * 72, sig[:-1], sig[1:], b'\x31' + sig[1:], sig[:2] + b'\x03' + sig[3:], gen.data(rng, 100, 70)]
    for g in garbage:
        if secp.parse_der(g) is None and not maybe_ber(g):
            cases.append((p, key.pub, h, g))
    for obj, pub, hh, sg in cases:
        want = secp.verify(pub, hh, sg)
        got = mon.call('verify', obj.verify, hh, sg)
        mon.same(got, want, 'verdict on signature %s' % sg.hex(), 'key %s digest %s' % (pub.hex(), hh.hex()))
        mon.state('valid' if want else 'invalid', (pub, hh, sg))


def maybe_ber(g):
    """Could a lax decoder take this for a signature?"""
    return g[:1] == b'\x30' and len(g) >= 8 and g.find(b'\x02', 1) >= 0 and g[2:3] == b'\x02' and len(g) == g[1] + 2


def forms(rng, mon, i):
    """Every encoding of a public key, right and wrong"""
    secret = gen_secret(rng)
    pt = secp.point(secret)
    x, y = pt
    bx, by = x.to_bytes(32, 'big'), y.to_bytes(32, 'big')
    other = (secp.P - y).to_bytes(32, 'big')
    wild = gen.blob(rng, 32)
    cases = [bytes([t]) + bx for t in range(9)] + [bytes([t]) + bx + by for t in range(9)] + [bytes([t]) + bx + other for t in (4, 6, 7)]
    cases += [b'', b'\x02', b'\x04', b'\x02' + bx[:-1], b'\x03' + bx + b'\x00', b'\x04' + bx + by + b'\x00', b'\x04' + bx + by[:-1], b'\x04' + bx + wild, b'\x02' + wild, b'\x03' + wild,
              b'\x04' + wild + by, b'\x02' + secp.P.to_bytes(32, 'big'), b'\x02' + bytes(32), b'\x03' + bytes(31) + b'\x05', b'\x02' + (secp.P + 1).to_bytes(32, 'big'), b'\x04' + bytes(64), bytes(33), bytes(65),
              b'\x02' + b'\xff' * 32, b'\x00\x00', gen.mutate(rng, b'\x04' + bx + by), gen.mutate(rng, b'\x02' + bx), gen.data(rng, 100, 33)]
    h = gen.blob(rng, 32)
    sig = spend.key(rng).sign(h)
    forged = spend.forge(rng, h)
    k = CECKey()
    k.set_secretbytes(secret)
    true = k.sign(h)
    cases += [spend.bad_pub(rng) for _ in range(4)]
    for b in cases:
        want = secp.decode(b) is not None
        p = mon.call('CPubKey', CPubKey, b)
        if b == b'\x00':
            continue
        mon.same(p.is_fullyvalid, want, 'is_fullyvalid of ' + b.hex())
        mon.same(p.is_valid, len(b) > 0, 'is_valid')
        mon.same(p.is_compressed, len(b) == 33, 'is_compressed')
        mon.check(bytes(p) == b, 'a public key is its bytes')
        mon.call('repr', repr, p)
        mon.state('encoding that is %s' % ('valid' if want else 'invalid'), b)
        if not want:
            # nothing is valid under a key that is not
            mon.same(mon.call('verify', p.verify, h, sig), False, 'signature under an invalid key ' + b.hex())
            mon.same(mon.call('verify', p.verify, h, forged), False, 'forged signature under an invalid key ' + b.hex())
            e = CECKey()
            e.set_pubkey(b)
            mon.same(mon.call('verify', e.verify, h, forged), False, 'forged signature under an invalid key ' + b.hex())
            mon.same(mon.call('verify', p.verify, h, true), False, 'signature of the true key under an invalid encoding ' + b.hex())
            mon.event('forgeries')
        else:
            mon.same(mon.call('verify', p.verify, h, true), secp.verify(b, h, true), 'signature of the true key under ' + b.hex())


def infinity(rng, mon, i):
    """The point at infinity as a public key"""
    p = CPubKey(b'\x00')
    if p.is_fullyvalid:
        mon.known('infinity-fullyvalid')
    mon.state('infinity', i)
    for _ in range(4):
        h = gen.blob(rng, 32)
        # u1*G + u2*infinity: valid for anyone, if infinity were a key
        s = rng.randrange(1, secp.N)
        z = int.from_bytes(h, 'big')
        pt = secp.mul(z * pow(s, -1, secp.N))
        sig = secp.der(pt[0] % secp.N, s) if pt else secp.der(1, s)
        mon.same(mon.call('verify', p.verify, h, sig), False, 'forged signature under the point at infinity')
        e = CECKey()
        e.set_pubkey(b'\x00')
        mon.same(mon.call('verify', e.verify, h, sig), False, 'forged signature under the point at infinity')
        mon.event('forgeries')


def shared(rng, mon, i):
    a, b = gen_secret(rng), gen_secret(rng)
    ka, kb = CECKey(), CECKey()
    ka.set_secretbytes(a)
    kb.set_secretbytes(b)
    pa, pb = CECKey(), CECKey()
    mon.check(pa.set_pubkey(secp.encode(secp.point(a), rng.choice('cu'))), 'public key refused')
    mon.check(pb.set_pubkey(secp.encode(secp.point(b), rng.choice('cu'))), 'public key refused')
    want = secp.ecdh(a, secp.point(b))
    for x, y in ((ka, pb), (kb, pa), (ka, kb), (kb, ka)):
        mon.same(mon.call('get_raw_ecdh_key', x.get_raw_ecdh_key, y), want, 'shared secret')
    mon.same(ka.get_ecdh_key(pb), hashlib.sha256(want).digest(), 'hashed shared secret')
    bad = CECKey()
    bad.set_pubkey(spend.bad_pub(rng))
    for x in (ka, kb):
        mon.raises('shared secret with a public key that is none', Exception, x.get_raw_ecdh_key, bad)
        mon.raises('shared secret with a public key that is none', Exception, x.get_ecdh_key, bad)
    mon.same(ka.get_ecdh_key(pb, kdf=lambda k: k[::-1]), want[::-1], 'shared secret through another function')
    mon.state('shared secret', want)


def lengths(rng, mon, i):
    n = rng.choice((0, 1, 16, 31, 33, 34, 64, 65, gen.size(rng, 200)))
    if n == 32:
        return
    for s in (gen.blob(rng, n), bytes(n), b'\x01' * n):
        mon.raises('secret of %d bytes' % n, ValueError, CKey, s)
        mon.raises('secret of %d bytes' % n, ValueError, CECKey().set_secretbytes, s)
    mon.state('length', n)


def reuse(rng, mon, i):
    """Key objects do not share state, and may be given a new secret"""
    secrets = [gen_secret(rng) for _ in range(4)]
    ks = [CKey(s) for s in secrets]
    h = gen.blob(rng, 32)
    sigs = [k.sign(h) for k in ks]
    for a in rng.sample(range(4), 4):
        for b in range(4):
            mon.same(ks[a].pub.verify(h, sigs[b]), secrets[a] == secrets[b] or secp.verify(bytes(ks[a].pub), h, sigs[b]), 'key %d signature %d' % (a, b))
    e = CECKey()
    for s in secrets:
        if rng.random() < 0.5:
            # whatever it was before
            e.set_pubkey(rng.choice((b'\x00', b'\x05' * 33, secp.encode(secp.point(secrets[0]), 'u'), spend.bad_pub(rng))))
        e.set_secretbytes(s)
        e.set_compressed(True)
        mon.same(e.get_pubkey(), secp.encode(secp.point(s), 'c'), 'key given a new secret')
        own = e.sign(h)
        mon.check(secp.verify(secp.encode(secp.point(s), 'c'), h, own), 'signature of a key given a new secret')
        mon.same(e.verify(h, own), True, 'own signature of a key given a new secret')
        mon.same(e.verify(h, spend.forge(rng, h)), False, 'forged signature under a key given a new secret')
    del ks[0]
    mon.same(ks[0].pub.verify(h, sigs[1]), True, 'key after another was released')
    mon.state('group', secrets)


def succession(rng, mon, i):
    """One key object given good and bad public keys in turn: it says which it took, and verifies under the last good one"""
    e = CECKey()
    last = None
    h = gen.blob(rng, 32)
    sk = [gen_secret(rng) for _ in range(3)]
    sigs = [CKey(s).sign(h) for s in sk]
    pubs = [secp.encode(secp.point(s), rng.choice('cu')) for s in sk]
    for _ in range(10):
        if rng.random() < 0.5:
            k = rng.randrange(3)
            mon.check(mon.call('set_pubkey', e.set_pubkey, pubs[k]), 'a good public key was refused', pubs[k].hex(), last)
            last = k
        else:
            b = spend.bad_pub(rng)
            if b == b'\x00':
                continue
            mon.check(not mon.call('set_pubkey', e.set_pubkey, b), 'set_pubkey says that it took a bad key', b.hex(), last)
        for k in range(3):
            mon.same(e.verify(h, sigs[k]), last is not None and (sk[k] == sk[last] or secp.verify(pubs[last], h, sigs[k])), 'verdict after keys given in turn')
    mon.state('succession', (sk, last))


SUITES = [Suite('succession', succession, 160, 1600), Suite('keys', keys, 800, 8000), Suite('signing', signing, 800, 8000), Suite('verdicts', verdicts, 1200, 10000), Suite('forms', forms, 800, 8000),
          Suite('infinity', infinity, 96, 500), Suite('shared', shared, 480, 5000), Suite('lengths', lengths, 100, 1000), Suite('reuse', reuse, 240, 2500)]

"""Addresses and secret keys in WIF"""
import bitcoin
from harness.worker import Suite
from harness import gen
from harness.models import btc, secp, spend, script as S
from harness.props.c34 import check58
from harness.props.c29 import gen_pub
from bitcoin.base58 import Base58ChecksumError, InvalidBase58Error
from bitcoin.core import CTransaction
from bitcoin.core.key import CPubKey
from bitcoin.core.script import CScript
from bitcoin.wallet import (CBitcoinAddress, CBitcoinAddressError, CBitcoinSecret, CBitcoinSecretError,
                            P2PKHBitcoinAddress, P2SHBitcoinAddress)

RULE = ('on each chain: hashes, scripts of the recognised forms with every push encoding and scripts one step away from them, public '
        'keys of every form valid and invalid, secrets, and strings of the other chains and kinds. Non-trivial: distinct scripts, '
        'addresses and secrets.')
CHAINS = {'mainnet': (0, 5, 128), 'testnet': (111, 196, 239), 'regtest': (111, 196, 239)}
TX = '0100000001' + '11' * 32 + '0000000000ffffffff0100f2052a0100000000' + '00000000'


def on_chain(rng):
    name = rng.choice(('mainnet', 'testnet', 'regtest'))
    bitcoin.SelectParams(name)
    return CHAINS[name]


def pushes(rng, b):
    """Every encoding of a push"""
    n = len(b)
    out = [bytes([n]) + b, b'\x4c' + bytes([n]) + b, b'\x4d' + n.to_bytes(2, 'little') + b, b'\x4e' + n.to_bytes(4, 'little') + b]
    return out


def hashes(rng, mon, i):
    pkh, sh, wif = on_chain(rng)
    try:
        for _ in range(6):
            h = gen.blob(rng, 20)
            for ver, cls, script in ((pkh, P2PKHBitcoinAddress, b'\x76\xa9\x14' + h + b'\x88\xac'), (sh, P2SHBitcoinAddress, b'\xa9\x14' + h + b'\x87')):
                s = check58(bytes([ver]) + h)
                for make in (lambda: CBitcoinAddress(s), lambda: cls(s), lambda: CBitcoinAddress.from_bytes(h, ver), lambda: cls.from_bytes(h),
                             lambda: cls.from_bytes(h, ver), lambda: CBitcoinAddress.from_scriptPubKey(CScript(script)),
                             lambda: cls.from_scriptPubKey(CScript(script))):
                    a = mon.call('address ' + s, make)
                    mon.check(type(a) is cls, 'kind of address', type(a), s)
                    mon.same(str(a), s, 'address string')
                    mon.check(bytes(a) == h and a.nVersion == ver, 'address contents', a, s)
                    mon.same(bytes(mon.call('to_scriptPubKey', a.to_scriptPubKey)), script, 'script of ' + s)
                mon.state('address', s)
                other = P2SHBitcoinAddress if cls is P2PKHBitcoinAddress else P2PKHBitcoinAddress
                mon.raises('address of the other kind', ValueError, other, s)
                mon.raises('address of the other kind', ValueError, other.from_bytes, h, ver)
                mon.raises('script of the other kind', CBitcoinAddressError, other.from_scriptPubKey, CScript(script))
                # other versions, other lengths
                v = rng.choice((0, 5, 111, 196, 128, 239)) if rng.random() < 0.5 else rng.randrange(256)
                if v not in (pkh, sh):
                    mon.raises('address of version %d' % v, CBitcoinAddressError, CBitcoinAddress, check58(bytes([v]) + h))
                n = rng.choice((19, 21, 0, 1, 32, 33, gen.size(rng, 100)))
                if n != 20:
                    d = gen.blob(rng, n)
                    mon.raises('address of %d bytes' % n, CBitcoinAddressError, CBitcoinAddress, check58(bytes([ver]) + d))
                    mon.raises('address of %d bytes' % n, CBitcoinAddressError, cls.from_bytes, d)
                k = rng.randrange(len(s))
                c = rng.choice('123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz')
                if c != s[k]:
                    mon.raises('mistyped address', Base58ChecksumError, CBitcoinAddress, s[:k] + c + s[k + 1:])
                    mon.raises('mistyped address', InvalidBase58Error, CBitcoinAddress, s[:k] + rng.choice('0OIl') + s[k + 1:])
    finally:
        bitcoin.SelectParams('mainnet')


def expect(script, noncanonical, bare):
    """(kind, hash) of the address of a script, or None; the third item: hash the known defect gives"""
    if S.is_p2sh(script):
        return P2SHBitcoinAddress, script[2:22], None
    ops, ok = S.parse(script)
    if not ok:
        return None
    codes = [op if d is None else None for op, d, _ in ops]
    if codes == [0x76, 0xa9, None, 0x88, 0xac] and len(ops[2][1]) == 20 and (noncanonical or ops[2][0] == 20):
        return P2PKHBitcoinAddress, ops[2][1], None
    if bare and codes == [None, 0xac] and len(ops[0][1]) in (33, 65) and (noncanonical or ops[0][0] == len(ops[0][1])):
        pub = ops[0][1]
        return P2PKHBitcoinAddress, btc.hash160(pub), btc.hash160(pub[:64]) if len(pub) == 65 else None
    return None


def gen_script(rng):
    h = gen.blob(rng, 20 if rng.random() < 0.9 else rng.choice((19, 21, 0, 33)))
    r = rng.randrange(7)
    if r == 0:
        s = b'\x76\xa9' + rng.choice(pushes(rng, h)) + b'\x88\xac'
    elif r == 1:
        s = b'\xa9' + (pushes(rng, h)[0] if rng.random() < 0.7 else rng.choice(pushes(rng, h))) + b'\x87'
    elif r in (2, 3):
        pub = rng.choice((spend.key(rng).pub, spend.key(rng).pub, gen.blob(rng, rng.choice((33, 65))), gen_pub(rng)))[:255]
        s = rng.choice(pushes(rng, pub)) + b'\xac'
    elif r == 4:
        s = btc.gen_script(rng)
    elif r == 5:
        s = rng.choice((b'\x51', b'\x6a') + tuple(pushes(rng, h))) + rng.choice((b'', b'\xac', b'\x88\xac', b'\x87'))
    else:
        s = spend.Lock(rng).script
    if rng.random() < 0.25:
        if rng.random() < 0.5:
            s = gen.mutate(rng, s)
        else:
            s = rng.choice((s + b'\x61', b'\x61' + s, s + b'\x00', s[:-1], s + s[-1:], s + b'\x4c', s[:-1] + b'\xad', s + b'\x4d\x01'))
    return s


def judge(mon, what, script, want, cls, fn):
    if want is None or (cls is not CBitcoinAddress and want[0] is not cls):
        mon.raises('%s of %s' % (what, script.hex()[:200]), CBitcoinAddressError, fn)
        mon.event('scripts without an address')
        return
    a = mon.call('%s of %s' % (what, script.hex()), fn)
    mon.check(type(a) is want[0], 'kind of address', type(a), script)
    if want[2] is not None and bytes(a) == want[2]:
        mon.known('uncompressed-bare-checksig')
    else:
        mon.eq(bytes(a).hex(), want[1].hex(), 'address of ' + script.hex())
    mon.event('scripts with an address')


def scripts(rng, mon, i):
    on_chain(rng)
    try:
        for _ in range(25):
            s = gen_script(rng)
            c = CScript(s)
            judge(mon, 'address', s, expect(s, True, True), CBitcoinAddress, lambda: CBitcoinAddress.from_scriptPubKey(c))
            judge(mon, 'P2SH address', s, expect(s, True, True), P2SHBitcoinAddress, lambda: P2SHBitcoinAddress.from_scriptPubKey(c))
            nc, bare = rng.random() < 0.5, rng.random() < 0.5
            w = expect(s, nc, bare)
            judge(mon, 'P2PKH address (%s, %s)' % (nc, bare), s, w, P2PKHBitcoinAddress,
                  lambda: P2PKHBitcoinAddress.from_scriptPubKey(c, accept_non_canonical_pushdata=nc, accept_bare_checksig=bare))
            mon.state('script with an address' if w else 'script without', s)
    finally:
        bitcoin.SelectParams('mainnet')


def keys(rng, mon, i):
    pkh, sh, wif = on_chain(rng)
    try:
        for _ in range(8):
            p = spend.key(rng).pub if rng.random() < 0.4 else gen_pub(rng)
            if p == b'\x00':
                continue
            valid = secp.decode(p) is not None
            s = check58(bytes([pkh]) + btc.hash160(p))
            for pub in (p, CPubKey(p)):
                if valid:
                    a = mon.call('from_pubkey', P2PKHBitcoinAddress.from_pubkey, pub)
                    mon.check(type(a) is P2PKHBitcoinAddress, 'kind of address')
                    mon.same(str(a), s, 'address of ' + p.hex())
                else:
                    mon.raises('address of invalid key ' + p.hex()[:150], CBitcoinAddressError, P2PKHBitcoinAddress.from_pubkey, pub)
                mon.same(str(mon.call('from_pubkey', P2PKHBitcoinAddress.from_pubkey, pub, accept_invalid=True)), s, 'address of ' + p.hex())
            mon.raises('address of text', TypeError, P2PKHBitcoinAddress.from_pubkey, p.hex())
            mon.state('valid key' if valid else 'invalid key', p)
            # redeem scripts
            n = rng.choice((520, 521, 519)) if rng.random() < 0.2 else gen.size(rng, 520)
            r = spend.Lock(rng).script if rng.random() < 0.5 else gen.blob(rng, n)
            if len(r) <= 520:
                h = btc.hash160(r)
                a = mon.call('from_redeemScript', P2SHBitcoinAddress.from_redeemScript, CScript(r))
                mon.check(type(a) is P2SHBitcoinAddress, 'kind of address')
                mon.same(str(a), check58(bytes([sh]) + h), 'address of redeem script ' + r.hex()[:100])
                mon.same(bytes(a.to_scriptPubKey()), b'\xa9\x14' + h + b'\x87', 'script')
                mon.state('redeem script', r)
            else:
                mon.raises('redeem script of %d bytes' % len(r), ValueError, P2SHBitcoinAddress.from_redeemScript, CScript(r))
    finally:
        bitcoin.SelectParams('mainnet')


def secrets(rng, mon, i):
    pkh, sh, wif = on_chain(rng)
    try:
        k = spend.Key(rng) if rng.random() < 0.3 else spend.key(rng)
        comp = rng.random() < 0.5
        pub = secp.encode(secp.point(k.secret), 'c' if comp else 'u')
        s = check58(bytes([wif]) + k.secret + (b'\x01' if comp else b''))
        h = gen.blob(rng, 32)
        for make in (lambda: CBitcoinSecret(s), lambda: CBitcoinSecret.from_secret_bytes(k.secret, comp),
                     lambda: CBitcoinSecret.from_secret_bytes(k.secret, int(comp))) + \
                ((lambda: CBitcoinSecret.from_secret_bytes(k.secret),) if comp else ()):
            o = mon.call('secret', make)
            mon.same(str(o), s, 'string of the secret')
            mon.check(bytes(o)[:32] == k.secret and o.nVersion == wif, 'secret bytes')
            mon.same(o.is_compressed, comp, 'is_compressed')
            mon.same(bytes(o.pub), pub, 'public key')
            mon.same(str(P2PKHBitcoinAddress.from_pubkey(o.pub)), check58(bytes([pkh]) + btc.hash160(pub)), 'address')
            sig = mon.call('sign', o.sign, h)
            mon.check(secp.verify(pub, h, sig), 'signature does not verify under the model', sig)
            mon.check(o.pub.verify(h, sig) is True, 'signature does not verify')
        mon.state('secret', s)
        for v in rng.sample((0, 5, 111, 196, 128, 239, 127, 129), 4):
            if v != wif:
                mon.raises('secret of version %d' % v, CBitcoinSecretError, CBitcoinSecret, check58(bytes([v]) + k.secret))
        mon.raises('address as a secret', CBitcoinSecretError, CBitcoinSecret, check58(bytes([pkh]) + btc.hash160(pub)))
        n = rng.choice((0, 1, 16, 31))
        mon.raises('secret of %d bytes' % n, (ValueError, CBitcoinSecretError), CBitcoinSecret, check58(bytes([wif]) + k.secret[:n]))
        more = rng.choice((b'\x00', b'\x02', b'\x81', bytes([rng.randrange(2, 256)]), b'\x01\x01', b'\x01\x00', b'\x00\x01',
                           b'\x01' + gen.blob(rng, rng.randint(1, 40)), k.secret))
        mon.raises('secret followed by %r' % more, CBitcoinSecretError, CBitcoinSecret, check58(bytes([wif]) + k.secret + more))
        mon.state('refused', more[:2])
        at = rng.randrange(len(s))
        c = rng.choice('123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz')
        if c != s[at]:
            mon.raises('mistyped secret', Base58ChecksumError, CBitcoinSecret, s[:at] + c + s[at + 1:])
    finally:
        bitcoin.SelectParams('mainnet')


SUITES = [Suite('hashes', hashes, 2400, 15000), Suite('scripts', scripts, 3200, 30000), Suite('keys', keys, 640, 4000), Suite('secrets', secrets, 480, 3000)]

"""Spends with real signatures, made with the Python model of secp256k1"""
from harness import gen
from harness.models import btc, secp, script as S

HASHTYPES = (1, 1, 1, 2, 3, 0x81, 0x82, 0x83)


class Key:
    def __init__(self, rng, form=None):
        self.secret = (gen.int_in(rng, 1, secp.N - 1) if rng.random() < 0.3 else rng.randrange(1, secp.N)).to_bytes(32, 'big')
        self.form = form or rng.choice('ccccuuh')
        self.pub = secp.encode(secp.point(self.secret), self.form)

    def sign(self, h, high=False):
        k = 0
        while True:
            r, s = secp.sign_rs(self.secret, h, secp.nonce(self.secret, h, bytes([k])))
            if r and s:
                break
            k += 1
        if (s > secp.N // 2) != high:
            s = secp.N - s
        return secp.der(r, s)


_pool = []


def key(rng):
    """A key from a small pool, so that few points are computed"""
    if len(_pool) < 40:
        import random
        r = random.Random('keys')
        while len(_pool) < 40:
            _pool.append(Key(r))
    return rng.choice(_pool)


_forged_s = {}


def forge(rng, h):
    """A signature over h that is valid under the point at infinity, if that were a key"""
    s = rng.choice((1, 1, 2, 3, rng.randrange(1, secp.N)))
    if len(_forged_s) > 500:
        _forged_s.clear()
    x = _forged_s.get((h, s))
    if x is None:
        pt = secp.mul(int.from_bytes(h, 'big') * pow(s, -1, secp.N) % secp.N)
        x = _forged_s[h, s] = pt[0] % secp.N if pt else 1
    return secp.der(x, s)


def bad_pub(rng):
    """A public key that is none"""
    good = key(rng).pub
    x = good[1:33]
    while True:
        b = rng.choice((b'', b'\x00', b'\x00\x00', bytes(33), bytes(65), b'\x02', b'\x03' + x[:-1], b'\x02' + x + b'\x00', b'\x02' + b'\xff' * 32, b'\x04' + x, b'\x04' + x + x,
                        bytes([rng.randrange(256)]) + x, bytes([rng.randrange(256)]) + x + x, bytes([rng.choice((2, 3))]) + gen.blob(rng, 32), gen.blob(rng, rng.choice((1, 32, 33, 65))),
                        good + b'\x01', gen.mutate(rng, good), b'\x01' * rng.choice((1, 20, 33, 65))))
        if secp.decode(b) is None and len(b) <= 520:
            return b


def small(n):
    return bytes([0x50 + n]) if n else b'\x00'


class Lock:
    """A script and how to satisfy it"""
    def __init__(self, rng, kind=None):
        self.kind = kind or rng.choice(('pk', 'pkh', 'pkh', 'multi', 'multi', 'multi', 'if', 'sep', 'verify', 'multiverify', 'keep'))
        kind = self.kind
        self.keys = [key(rng)]
        self.m = 1
        k = self.keys[0]
        if kind == 'pk':
            self.script = btc.push(k.pub) + b'\xac'
        elif kind == 'pkh':
            self.script = b'\x76\xa9\x14' + btc.hash160(k.pub) + b'\x88\xac'
        elif kind in ('multi', 'multiverify'):
            n = rng.choice((1, 2, 2, 3, 3, 3, 4, 5))
            self.m = rng.randint(0 if rng.random() < 0.1 else 1, n)
            self.keys = [key(rng) for _ in range(n)]
            self.script = small(self.m) + b''.join(btc.push(x.pub) for x in self.keys) + small(n) + (b'\xae' if kind == 'multi' else b'\xaf\x51')
        elif kind == 'if':
            self.keys = [key(rng), key(rng)]
            self.script = b'\x63' + btc.push(self.keys[0].pub) + b'\x67' + btc.push(self.keys[1].pub) + b'\x68\xac'
        elif kind == 'sep':
            self.script = rng.choice((b'\xab', b'\x51\x75\xab', b'\xab\x61\xab', b'\x61')) + btc.push(k.pub) + rng.choice((b'', b'\xab')) + b'\xac' + rng.choice((b'', b'\xab\x61'))
        elif kind == 'keep':
            # a code separator that does not run
            self.script = b'\x00\x63\xab\x68' + btc.push(k.pub) + b'\xac'
        elif kind == 'verify':
            self.script = btc.push(k.pub) + b'\xad\x51'
        self.choice = rng.random() < 0.5

    def code(self, at=None):
        """The part signatures commit to"""
        ops, _ = S.parse(self.script)
        begin = 0
        for k, (op, d, pos) in enumerate(ops):
            if op in (0xac, 0xad, 0xae, 0xaf):
                break
            if op == 0xab and self.kind != 'keep':
                begin = pos + 1
        return self.script[begin:]

    def satisfy(self, rng, tx, i, types=None, signers=None):
        """scriptSig, [signatures]"""
        sigs = []
        if self.kind in ('multi', 'multiverify'):
            who = signers if signers is not None else sorted(rng.sample(range(len(self.keys)), self.m))
            for j in who:
                sigs.append(self.one(rng, self.keys[j], tx, i, types))
            return b'\x00' + b''.join(btc.push(s) for s in sigs), sigs
        k = self.keys[0]
        if self.kind == 'if':
            k = self.keys[0 if self.choice else 1]
        sigs.append(self.one(rng, k, tx, i, types))
        out = btc.push(sigs[0])
        if self.kind == 'pkh':
            out += btc.push(k.pub)
        elif self.kind == 'if':
            out += b'\x51' if self.choice else b'\x00'
        return out, sigs

    def one(self, rng, k, tx, i, types):
        t = rng.choice(types or HASHTYPES)
        h, _ = S.sighash(self.code(), tx, i, t)
        return k.sign(h, rng.random() < 0.2) + bytes([t])

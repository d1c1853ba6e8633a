"""Base58 and Base58Check"""
from harness.worker import Suite
from harness import gen
from harness.models import btc
from bitcoin import base58 as B

RULE = ('byte strings with every kind of leading zeros, strings over and around the alphabet, damaged Base58Check strings (every '
        'single-character substitution, transposition, deletion and insertion of the strings that are picked). Non-trivial: '
        'distinct byte strings and strings.')
ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
OTHERS = '0OIl +/-_=\n\t\x00\x7f\u0131\u0661\uff11'


def enc(b):
    """By long division, one digit at a time"""
    out = ''
    digits = list(b)
    while digits:
        rem, nxt = 0, []
        for d in digits:
            rem = rem * 256 + d
            q, rem = divmod(rem, 58)
            if nxt or q:
                nxt.append(q)
        if not nxt and not rem and not out and not any(digits):
            break
        out = ALPHABET[rem] + out
        digits = nxt
    z = 0
    while z < len(b) and b[z] == 0:
        z += 1
    return '1' * z + out


def dec(s):
    digits = []
    for c in s:
        carry = ALPHABET.index(c)
        for i in range(len(digits)):
            carry += digits[i] * 58
            digits[i] = carry & 255
            carry >>= 8
        while carry:
            digits.append(carry & 255)
            carry >>= 8
    z = len(s) - len(s.lstrip('1'))
    return bytes(z) + bytes(reversed(digits))


def check58(b):
    return enc(b + btc.dsha(b)[:4])


def gen_bytes(rng):
    b = gen.data(rng, 120, 34)
    if rng.random() < 0.3:
        b = bytes(rng.choice((1, 2, 3, 10, 40))) + b
    return b


def gen_string(rng):
    n = gen.size(rng, 100, 36)
    s = ''.join(rng.choice(ALPHABET) for _ in range(n))
    r = rng.random()
    if r < 0.3:
        s = '1' * rng.randint(1, 12) + s
    elif r < 0.4:
        s = rng.choice(ALPHABET) * n
    return s


def data(rng, mon, i):
    for _ in range(12):
        b = gen_bytes(rng)
        s = mon.call('encode', B.encode, b)
        mon.same(s, enc(b), 'encoding of ' + b.hex())
        mon.same(mon.call('decode', B.decode, s), b, 'decoding of ' + s)
        mon.state('bytes', b)
        b2 = gen.mutate(rng, b)
        if b2 != b:
            mon.check(B.encode(b2) != s, 'two byte strings share an encoding', b, b2)


def strings(rng, mon, i):
    for _ in range(12):
        s = gen_string(rng)
        b = mon.call('decode', B.decode, s)
        mon.same(b, dec(s), 'decoding of ' + s)
        mon.same(B.encode(b), s, 'encoding of the decoding')
        mon.state('string', s)
        # one character outside the alphabet
        k = rng.randint(0, len(s))
        c = rng.choice(OTHERS) if rng.random() < 0.7 else chr(rng.randrange(256))
        if c not in ALPHABET:
            bad = s[:k] + c + s[k + rng.randint(0, 1):]
            mon.raises('decoding %a' % bad, B.InvalidBase58Error, B.decode, bad)
            mon.raises('Base58Check %a' % bad, B.InvalidBase58Error, B.CBase58Data, bad)
            mon.state('character', c)


def checked(rng, mon, i):
    for _ in range(6):
        v = rng.choice((0, 5, 111, 128, 196, 239, 1, 255)) if rng.random() < 0.6 else rng.randrange(256)
        d = gen_bytes(rng)
        s = check58(bytes([v]) + d)
        o = mon.call('CBase58Data', B.CBase58Data, s)
        mon.same(o.to_bytes(), d, 'data of ' + s)
        mon.eq(bytes(o), d, 'data of ' + s)
        mon.same(o.nVersion, v, 'version of ' + s)
        mon.same(str(o), s, 'string')
        p = mon.call('from_bytes', B.CBase58Data.from_bytes, d, v)
        mon.check(str(p) == s and p.nVersion == v and p.to_bytes() == d, 'from_bytes', s, str(p))
        mon.state('checked', s)
        bad = rng.choice((-1, 256, 257, 1 << 32, -128))
        mon.raises('version %d' % bad, ValueError, B.CBase58Data.from_bytes, d, bad)
        # any other string over the alphabet is refused unless it carries its checksum
        for t in damaged(rng, s):
            k = dec(t)
            if len(k) >= 5 and btc.dsha(k[:-4])[:4] == k[-4:]:
                mon.eq(str(mon.call('CBase58Data', B.CBase58Data, t)), t, 'string')
                continue
            mon.raises('damaged %s' % t, B.Base58ChecksumError, B.CBase58Data, t)
            mon.event('damaged strings refused')
    # every checksum that is one bit off
    k = bytes([v]) + d
    c = btc.dsha(k)[:4]
    for bit in range(32):
        w = bytearray(c)
        w[bit >> 3] ^= 1 << (bit & 7)
        mon.raises('checksum bit %d' % bit, B.Base58ChecksumError, B.CBase58Data, enc(k + bytes(w)))


def damaged(rng, s):
    out = set()
    for _ in range(25):
        r = rng.randrange(6)
        k = rng.randrange(len(s))
        if r == 0:
            t = s[:k] + rng.choice(ALPHABET) + s[k + 1:]
        elif r == 1:
            t = s[:k] + s[k + 1:]
        elif r == 2:
            t = s[:k] + rng.choice(ALPHABET) + s[k:]
        elif r == 3 and k:
            t = s[:k - 1] + s[k] + s[k - 1] + s[k + 1:]
        elif r == 4:
            t = s[:k]
        else:
            t = rng.choice(('1' + s, s[1:] if s[0] == '1' else s + '1', s + s, s.swapcase().translate({ord(c): '1' for c in '0OIl'})))
        if t != s:
            out.add(t)
    return out


def short(rng, mon, i):
    """Fewer than five bytes cannot hold a version and a checksum"""
    for n in range(5):
        for b in (bytes(n), gen.blob(rng, n), btc.dsha(b'')[:n]):
            mon.raises('%d bytes' % n, B.Base58ChecksumError, B.CBase58Data, enc(b))
    v = rng.randrange(256)
    o = mon.call('CBase58Data', B.CBase58Data, check58(bytes([v])))
    mon.check(o.nVersion == v and o.to_bytes() == b'', 'no data')
    mon.state('version alone', v)


def exhaustive(rng, mon, i):
    """Every byte string of two bytes, every string of two characters"""
    for k in range(i * 2048, (i + 1) * 2048):
        b = bytes([k >> 8, k & 255])
        for x in (b, b'\x00' + b, b[1:]):
            mon.check(B.encode(x) == enc(x) and B.decode(B.encode(x)) == x, 'bytes ' + x.hex())
    for a in ALPHABET[i * 2:i * 2 + 2]:
        for c in ALPHABET:
            mon.check(B.decode(a + c) == dec(a + c) and B.encode(B.decode(a + c)) == a + c, 'string ' + a + c)
    mon.state('block', i)


SUITES = [Suite('data', data, 2400, 30000), Suite('strings', strings, 2400, 30000), Suite('checked', checked, 2000, 12000),
          Suite('short', short, 40, 400), Suite('exhaustive', exhaustive, 32, 32)]

"""secp256k1 and ECDSA in plain Python"""
import hashlib, hmac

P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def _dbl(p):
    x, y, z = p
    if not z or not y:
        return (0, 1, 0)
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return (x2, (m * (s - x2) - 8 * pow(y, 4, P)) % P, 2 * y * z % P)


def _add(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    x1, y1, z1 = p
    x2, y2, z2 = q
    z1z1, z2z2 = z1 * z1 % P, z2 * z2 % P
    u1, u2 = x1 * z2z2 % P, x2 * z1z1 % P
    s1, s2 = y1 * z2 * z2z2 % P, y2 * z1 * z1z1 % P
    if u1 == u2:
        return _dbl(p) if s1 == s2 else (0, 1, 0)
    h, r = u2 - u1, s2 - s1
    h2 = h * h % P
    h3 = h2 * h % P
    x3 = (r * r - h3 - 2 * u1 * h2) % P
    return (x3, (r * (u1 * h2 - x3) - s1 * h3) % P, h * z1 * z2 % P)


def _affine(p):
    if not p[2]:
        return None
    i = pow(p[2], -1, P)
    return (p[0] * i * i % P, p[1] * i * i * i % P)


def _mul(k, p):
    r = (0, 1, 0)
    for b in bin(k)[2:] if k else '':
        r = _dbl(r)
        if b == '1':
            r = _add(r, p)
    return r


def mul(k, pt=G):
    k %= N
    return _affine(_mul(k, (pt[0], pt[1], 1))) if pt is not None else None


_cache = {}


def point(secret):
    """Public point of a 32 byte secret"""
    r = _cache.get(secret)
    if r is None:
        if len(_cache) > 3000:
            _cache.clear()
        r = _cache[secret] = mul(int.from_bytes(secret, 'big'))
    return r


def encode(pt, form):
    """form: 'c' compressed, 'u' uncompressed, 'h' hybrid"""
    x, y = pt[0].to_bytes(32, 'big'), pt[1].to_bytes(32, 'big')
    if form == 'c':
        return bytes([2 + (pt[1] & 1)]) + x
    if form == 'u':
        return b'\x04' + x + y
    return bytes([6 + (pt[1] & 1)]) + x + y


def decode(b):
    """Point of an encoded pubkey, or None"""
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], 'big')
        if x >= P:
            return None
        y2 = (pow(x, 3, P) + 7) % P
        y = pow(y2, (P + 1) // 4, P)
        if y * y % P != y2:
            return None
        return (x, y if y & 1 == b[0] & 1 else P - y)
    if len(b) == 65 and b[0] in (4, 6, 7):
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if x >= P or y >= P or (y * y - pow(x, 3, P) - 7) % P:
            return None
        if b[0] != 4 and y & 1 != b[0] & 1:
            return None
        return (x, y)
    return None


def verify_rs(pt, h, r, s):
    if not (0 < r < N and 0 < s < N):
        return False
    z = int.from_bytes(h[:32], 'big')
    w = pow(s, -1, N)
    a = _add(_mul(z * w % N, (G[0], G[1], 1)), _mul(r * w % N, (pt[0], pt[1], 1)))
    a = _affine(a)
    return a is not None and a[0] % N == r


def sign_rs(secret, h, k):
    """ECDSA with the nonce k"""
    d = int.from_bytes(secret, 'big')
    r = mul(k)[0] % N
    s = pow(k, -1, N) * (int.from_bytes(h, 'big') + r * d) % N
    return r, s


def der_int(v):
    b = v.to_bytes(v.bit_length() // 8 + 1, 'big')
    return b'\x02' + bytes([len(b)]) + b


def der(r, s):
    b = der_int(r) + der_int(s)
    return b'\x30' + bytes([len(b)]) + b


def parse_der(sig):
    """(r, s) of a strictly encoded signature, None otherwise"""
    try:
        if sig[0] != 0x30 or sig[1] != len(sig) - 2 or sig[1] >= 128:
            return None
        out, pos = [], 2
        for _ in range(2):
            if sig[pos] != 2:
                return None
            n = sig[pos + 1]
            b = sig[pos + 2:pos + 2 + n]
            if len(b) != n or n == 0 or n >= 128:
                return None
            v = int.from_bytes(b, 'big', signed=True)
            if der_int(v)[2:] != b if v >= 0 else True:
                return None
            out.append(v)
            pos += 2 + n
        return tuple(out) if pos == len(sig) else None
    except IndexError:
        return None


def verify(pub, h, sig):
    """pub: encoded"""
    pt = decode(pub)
    rs = parse_der(sig)
    return pt is not None and rs is not None and verify_rs(pt, h, *rs)


def nonce(secret, h, extra=b''):
    return int.from_bytes(hmac.new(secret, h + extra, hashlib.sha256).digest(), 'big') % (N - 1) + 1


def ecdh(secret, pt):
    return mul(int.from_bytes(secret, 'big'), pt)[0].to_bytes(32, 'big')

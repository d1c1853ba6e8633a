"""Independent model of the Bitcoin wire format: plain values, plain bytes."""
import hashlib, struct
from harness import gen

MASK32 = 0xffffffff


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def hash160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


def compact(n):
    if n < 253:
        return bytes([n])
    if n < 2**16:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n < 2**32:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def le(v, n, signed=False):
    return int(v).to_bytes(n, 'little', signed=signed)


def push(b):
    """Script push, by length alone"""
    n = len(b)
    if n < 76:
        return bytes([n]) + b
    if n < 256:
        return b'\x4c' + bytes([n]) + b
    if n < 65536:
        return b'\x4d' + n.to_bytes(2, 'little') + b
    return b'\x4e' + n.to_bytes(4, 'little') + b


class MOut:
    def __init__(self, h, n):
        self.h, self.n = h, n

    def ser(self):
        return self.h + le(self.n, 4)


class MTx:
    """vin: [(hash, n, script, sequence)], vout: [(value, script)]"""
    def __init__(self, version, vin, vout, locktime):
        self.version, self.vin, self.vout, self.locktime = version, list(vin), list(vout), locktime

    def ser(self):
        out = [le(self.version, 4, True), compact(len(self.vin))]
        for h, n, s, q in self.vin:
            out += [h, le(n, 4), compact(len(s)), s, le(q, 4)]
        out.append(compact(len(self.vout)))
        for v, s in self.vout:
            out += [le(v, 8, True), compact(len(s)), s]
        out.append(le(self.locktime, 4))
        return b''.join(out)

    def txid(self):
        return dsha(self.ser())

    def copy(self):
        return MTx(self.version, self.vin, self.vout, self.locktime)

    def real(self):
        from bitcoin.core import CTransaction, CTxIn, CTxOut, COutPoint
        from bitcoin.core.script import CScript
        return CTransaction([CTxIn(COutPoint(h, n), CScript(s), q) for h, n, s, q in self.vin],
                            [CTxOut(v, CScript(s)) for v, s in self.vout], self.locktime, self.version)

    def real_mutable(self):
        from bitcoin.core import CMutableTransaction, CMutableTxIn, CMutableTxOut, CMutableOutPoint
        from bitcoin.core.script import CScript
        return CMutableTransaction([CMutableTxIn(CMutableOutPoint(h, n), CScript(s), q) for h, n, s, q in self.vin],
                                   [CMutableTxOut(v, CScript(s)) for v, s in self.vout], self.locktime, self.version)


def parse_tx(buf, pos=0):
    """(MTx, position) or None; reference decoder"""
    r = Reader(buf, pos)
    try:
        tx = r.tx()
    except EOFError:
        return None
    return tx, r.pos


class Reader:
    def __init__(self, buf, pos=0):
        self.buf, self.pos = buf, pos

    def take(self, n):
        if n > 0x02000000 or self.pos + n > len(self.buf):
            raise EOFError
        r = self.buf[self.pos:self.pos + n]
        self.pos += n
        return r

    def int(self, n, signed=False):
        return int.from_bytes(self.take(n), 'little', signed=signed)

    def compact(self):
        b = self.take(1)[0]
        return b if b < 253 else self.int({253: 2, 254: 4, 255: 8}[b])

    def var(self):
        return self.take(self.compact())

    def tx(self):
        version = self.int(4, True)
        vin, vout = [], []
        for _ in range(self.compact()):
            h = self.take(32)
            n = self.int(4)
            s = self.var()
            vin.append((h, n, s, self.int(4)))
        for _ in range(self.compact()):
            v = self.int(8, True)
            vout.append((v, self.var()))
        return MTx(version, vin, vout, self.int(4))

    def header(self):
        return MHeader(self.int(4, True), self.take(32), self.take(32), self.int(4), self.int(4), self.int(4))

    def block(self):
        h = self.header()
        return MBlock(h, [self.tx() for _ in range(self.compact())])


class MHeader:
    def __init__(self, version, prev, merkle, time, bits, nonce):
        self.version, self.prev, self.merkle, self.time, self.bits, self.nonce = version, prev, merkle, time, bits, nonce

    def ser(self):
        return le(self.version, 4, True) + self.prev + self.merkle + le(self.time, 4) + le(self.bits, 4) + le(self.nonce, 4)

    def args(self):
        return (self.version, self.prev, self.merkle, self.time, self.bits, self.nonce)


class MBlock:
    def __init__(self, header, txs):
        self.header, self.txs = header, txs

    def ser(self):
        return self.header.ser() + compact(len(self.txs)) + b''.join(t.ser() for t in self.txs)

    def real(self):
        from bitcoin.core import CBlock
        return CBlock(*self.header.args(), vtx=tuple(t.real() for t in self.txs))


def merkle_levels(ids):
    """All levels, leaves first"""
    levels = [list(ids)]
    while len(levels[-1]) > 1:
        l = levels[-1]
        levels.append([dsha(l[k] + l[min(k + 1, len(l) - 1)]) for k in range(0, len(l), 2)])
    return levels


def merkle_root(ids):
    return merkle_levels(ids)[-1][0]


# -- generators
def gen_script(rng, hi=300, typical=30):
    r = rng.random()
    if r < 0.15:
        return b''
    if r < 0.6:
        return gen.data(rng, hi, typical)
    h = gen.blob(rng, 20)
    return rng.choice((b'\x76\xa9\x14' + h + b'\x88\xac', b'\xa9\x14' + h + b'\x87',
                       b'\x6a' + push(gen.data(rng, 80, 32)), push(gen.blob(rng, 33)) + b'\xac', push(gen.blob(rng, 71)) + push(gen.blob(rng, 33))))


def gen_vin(rng, hi=300):
    return (gen.blob(rng, 32), gen.int_in(rng, 0, MASK32), gen_script(rng, hi), rng.choice((MASK32, gen.int_in(rng, 0, MASK32))))


def gen_vout(rng, hi=300):
    return (gen.int_in(rng, -2**63, 2**63 - 1), gen_script(rng, hi))


def gen_tx(rng, nin=None, nout=None, hi=300):
    if nin is None:
        nin = rng.choice((0, 1, 1, 1, 2, 2, 3, 5, gen.size(rng, 300, 4)))
    if nout is None:
        nout = rng.choice((0, 1, 1, 2, 2, 3, 5, gen.size(rng, 300, 4)))
    if nin + nout > 20:
        hi = 30
    return MTx(gen.int_in(rng, -2**31, 2**31 - 1) if rng.random() < 0.5 else rng.choice((1, 1, 2, 0)),
               [gen_vin(rng, hi) for _ in range(nin)], [gen_vout(rng, hi) for _ in range(nout)],
               rng.choice((0, 0, gen.int_in(rng, 0, MASK32))))


def gen_header(rng):
    return MHeader(gen.int_in(rng, -2**31, 2**31 - 1), gen.blob(rng, 32), gen.blob(rng, 32), gen.int_in(rng, 0, MASK32),
                   gen.int_in(rng, 0, MASK32), gen.int_in(rng, 0, MASK32))


def gen_block(rng, ntx=None):
    if ntx is None:
        ntx = rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, gen.size(rng, 60, 6)))
    return MBlock(gen_header(rng), [gen_tx(rng, rng.randint(0, 3), rng.randint(0, 3), 60) for _ in range(ntx)])


def become(real, m):
    """Edits a mutable transaction in place until it is the one described"""
    from bitcoin.core import CMutableTxIn, CMutableTxOut, CMutableOutPoint
    from bitcoin.core.script import CScript
    real.nVersion, real.nLockTime = m.version, m.locktime
    del real.vin[len(m.vin):], real.vout[len(m.vout):]
    for k, (h, n, s, q) in enumerate(m.vin):
        if k == len(real.vin):
            real.vin.append(CMutableTxIn(CMutableOutPoint(h, n), CScript(s), q))
        else:
            x = real.vin[k]
            x.prevout.hash, x.prevout.n, x.scriptSig, x.nSequence = h, n, CScript(s), q
    for k, (v, s) in enumerate(m.vout):
        if k == len(real.vout):
            real.vout.append(CMutableTxOut(v, CScript(s)))
        else:
            x = real.vout[k]
            x.nValue, x.scriptPubKey = v, CScript(s)
    return real


def change_tx(rng, tx):
    """A transaction that differs in exactly one field"""
    for _ in range(20):
        t = tx.copy()
        r = rng.randrange(9)
        if r == 0:
            t.version = tx.version ^ (1 << rng.randrange(31))
        elif r == 1:
            t.locktime = tx.locktime ^ (1 << rng.randrange(32))
        elif r in (2, 3, 4, 5) and t.vin:
            k = rng.randrange(len(t.vin))
            h, n, s, q = t.vin[k]
            if r == 2:
                b = bytearray(h)
                b[rng.randrange(32)] ^= 1 << rng.randrange(8)
                h = bytes(b)
            elif r == 3:
                n ^= 1 << rng.randrange(32)
            elif r == 4:
                s = s + b'\x51' if not s or rng.random() < 0.5 else s[:-1]
            else:
                q ^= 1 << rng.randrange(32)
            t.vin[k] = (h, n, s, q)
        elif r in (6, 7) and t.vout:
            k = rng.randrange(len(t.vout))
            v, s = t.vout[k]
            if r == 6:
                v = v ^ (1 << rng.randrange(50))
            else:
                s = s + b'\x51' if not s or rng.random() < 0.5 else s[:-1]
            t.vout[k] = (v, s)
        elif r == 8:
            if rng.random() < 0.5:
                t.vout.append((0, b''))
            else:
                t.vin.append((b'\x00' * 32, 0, b'', 0))
        if t.ser() != tx.ser():
            return t
    t = tx.copy()
    t.version ^= 1
    return t

"""Independent models of the MMR and merbinner tree commitments, and test tree classes."""
import hashlib
from decimal import Decimal
from fractions import Fraction
from harness import gen
from harness.models import btc, pm, prooflab
from harness.props import c03
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.proof import Proof, ProofUnion
from proofchains.core.bitcoin import COutPointSerializer, CTransactionSerializer
from bitcoin.core import COutPoint, CTransaction
from proofmarshal.serialize import HashTag, UInt8, UInt16, UInt32, UInt64, VarBytes, FixedBytes, Digest, SerBool

MMR_EMPTY = pm.tag('390de307-8787-47b7-b25d-250aba02b1e5')
MMR_LEAF = pm.tag('4ea09c8e-87f5-4978-a829-78d42ab8638a')
MMR_INNER = pm.tag('a7ca25ce-8fee-4063-b022-96b2dbcb392e')
MB_EMPTY = pm.tag('ca380e10-c7d5-44df-aef0-55bce2125329')
MB_LEAF = pm.tag('f5cc855e-9d21-4f8d-ab42-7883c765c323')
MB_INNER = pm.tag('66d74741-0ffd-4178-9a79-641a45e23dda')


class Boxed(Proof):
    """A proof used as a key or value"""
    __slots__ = ['n']
    HASHTAG = HashTag('5a0e3a6c-90f5-4f0c-a2a2-5b6f5f6c2a11')
    SERIALIZED_ATTRS = [('n', UInt64)]


BOX_TAG = pm.tag('5a0e3a6c-90f5-4f0c-a2a2-5b6f5f6c2a11')


class VUInt:
    """Kinds of values: how to make, encode, hash and compare them"""
    def __init__(self, ser, bits):
        self.ser, self.bits = ser, bits
        self.t = ('uint', bits)

    def make(self, rng):
        return gen.int_in(rng, 0, 2**self.bits - 1)

    def enc(self, v):
        return pm.varuint(v)
    commit = enc

    def real(self, v):
        return v

    def matches(self, got, v):
        return type(got) is int and got == v


class VBytes(VUInt):
    def __init__(self, ser, lo, hi, fixed=False):
        self.ser, self.lo, self.hi, self.fixed = ser, lo, hi, fixed

    def make(self, rng):
        return gen.blob(rng, rng.randint(self.lo, self.hi))

    def enc(self, v):
        return v if self.fixed else pm.varuint(len(v)) + v
    commit = enc

    def matches(self, got, v):
        return type(got) is bytes and got == v


class VBool(VUInt):
    def __init__(self):
        self.ser = SerBool

    def make(self, rng):
        return rng.random() < 0.5

    def enc(self, v):
        return b'\xff' if v else b'\x00'
    commit = enc

    def matches(self, got, v):
        return got is v


class VBox(VUInt):
    def __init__(self):
        self.ser = Boxed

    def make(self, rng):
        return gen.int_in(rng, 0, 2**64 - 1)

    def enc(self, v):
        return b'\x00' + pm.varuint(v)

    def commit(self, v):
        return pm.sha(BOX_TAG + pm.sha(pm.varuint(v)))

    def real(self, v):
        return Boxed(n=v)

    def matches(self, got, v):
        return isinstance(got, Boxed) and bytes(got.hash) == self.commit(v)


class Crate(Proof):
    """Another proof with the same content"""
    __slots__ = ['n']
    HASHTAG = HashTag('5a0e3a6c-90f5-4f0c-a2a2-5b6f5f6c2a12')
    SERIALIZED_ATTRS = [('n', UInt64)]


class VUnion(VBox):
    """Proofs of one of two kinds: (which, number)"""
    CLS = (Boxed, Crate)
    TAGS = (BOX_TAG, pm.tag('5a0e3a6c-90f5-4f0c-a2a2-5b6f5f6c2a12'))

    def __init__(self):
        self.ser = ProofUnion(*self.CLS)

    def make(self, rng):
        return rng.randrange(2), gen.int_in(rng, 0, 2**64 - 1)

    def enc(self, v):
        return pm.varuint(v[0]) + b'\x00' + pm.varuint(v[1])

    def commit(self, v):
        return pm.sha(self.TAGS[v[0]] + pm.sha(pm.varuint(v[1])))

    def real(self, v):
        return self.CLS[v[0]](n=v[1])

    def matches(self, got, v):
        return type(got) is self.CLS[v[0]] and bytes(got.hash) == self.commit(v)


class VBits(VUInt):
    def __init__(self):
        self.ser = BitsSerializer

    def make(self, rng):
        return tuple(rng.randrange(2) for _ in range(gen.size(rng, 300, 10)))

    def enc(self, v):
        return pm.enc_bits(v)
    commit = enc

    def real(self, v):
        return Bits(v)

    def matches(self, got, v):
        return type(got) is Bits and tuple(got) == v


class VOutPoint(VUInt):
    """Outpoints, many of them of the same few transactions"""
    def __init__(self):
        self.ser = COutPointSerializer
        self.ids = []

    def make(self, rng):
        if len(self.ids) < 4 and rng.random() < 0.4 or not self.ids:
            self.ids.append(gen.blob(rng, 32))
        return rng.choice(self.ids), rng.choice((0, 1, rng.getrandbits(32)))

    def enc(self, v):
        return b'\x24' + v[0] + v[1].to_bytes(4, 'little')
    commit = enc

    def real(self, v):
        return COutPoint(*v)

    def matches(self, got, v):
        return type(got) is COutPoint and (got.hash, got.n) == v


class VTx(VUInt):
    """Transactions, as their bytes"""
    def __init__(self):
        self.ser = CTransactionSerializer

    def make(self, rng):
        return btc.gen_tx(rng, 2, 2, 20).ser()

    def enc(self, v):
        return pm.varuint(len(v)) + v
    commit = enc

    def real(self, v):
        return CTransaction.deserialize(v)

    def matches(self, got, v):
        return type(got) is CTransaction and got.serialize() == v


class IntLike(int):
    pass


class BytesLike(bytes):
    pass


class Liar:
    """Equal to what it was made of, and no more"""
    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return self.v == other

    def __hash__(self):
        return hash(self.v)

    def __bool__(self):
        return bool(self.v)

    def __len__(self):
        return len(self.v)


def impostors(v):
    """Values of other types, equal to v where there are such"""
    r = [Liar(v), None, str(v), [v]]
    if type(v) is bool:
        r += [int(v), float(v), IntLike(v), Decimal(v)]
    elif type(v) is int:
        r += [IntLike(v), Decimal(v), Fraction(v)]
        if float(v) == v:
            r.append(float(v))
        if v in (0, 1):
            r.append(bool(v))
    elif type(v) is bytes:
        r += [bytearray(v), memoryview(v), BytesLike(v), v.decode('latin1')]
    else:
        r += [bytes(v.hash), v.hash]
    return r


KINDS = [lambda: VUInt(UInt64, 64), lambda: VUInt(UInt8, 8), lambda: VBytes(Digest, 32, 32, True),
         lambda: VBytes(VarBytes(40), 0, 40), lambda: VBytes(FixedBytes(1), 1, 1, True), VBox, VBool]
# and such as are no plain data
VALUES = KINDS * 2 + [VUnion, VBits, VOutPoint, VTx, lambda: VUInt(UInt16, 16), lambda: VUInt(UInt32, 32)]


class MMRModel:
    """The commitment of a list, by the recursive definition"""
    def __init__(self, tag, kind):
        self.tag, self.kind = tag, kind
        self.t_empty, self.t_leaf, self.t_inner = (pm.derive(t, tag) for t in (MMR_EMPTY, MMR_LEAF, MMR_INNER))
        self.memo = {}

    @staticmethod
    def split(n):
        """Length of the right part"""
        k = 1
        while k < n:
            if n & k:
                return k
            k *= 2
        return n // 2

    def data_hash(self, items):
        n = len(items)
        if n == 0:
            return pm.sha(b'')
        if n == 1:
            return pm.sha(self.kind.commit(items[0]))
        k = self.split(n)
        return pm.sha(self.hash(items[:n - k]) + self.hash(items[n - k:]) + pm.varuint(n))

    def hash(self, items):
        items = tuple(items)
        h = self.memo.get(items)
        if h is None:
            t = self.t_inner if len(items) > 1 else self.t_leaf if items else self.t_empty
            h = pm.sha(t + self.data_hash(items))
            if len(self.memo) > 20000:
                self.memo.clear()
            self.memo[items] = h
        return h

    def ser(self, items, lo=0, need=None):
        """need: set of absolute positions that are visible, None for all"""
        items = tuple(items)
        n = len(items)
        if need is not None and n and not any(lo <= p < lo + n for p in need):
            return b'\xff' + pm.varuint(2 if n > 1 else 1) + self.data_hash(items)
        if n == 0:
            return b'\x00\x00'
        if n == 1:
            return b'\x00\x01' + self.kind.enc(items[0])
        k = self.split(n)
        return b'\x00\x02' + self.ser(items[:n - k], lo, need) + self.ser(items[n - k:], lo + n - k, need) + pm.varuint(n)


_n = [0]


def make_mmr_class(rng, kind=None):
    kind = kind or rng.choice(VALUES)()
    u = prooflab.rand_uuid(rng)
    _n[0] += 1
    cls = type('Mmr%d' % _n[0], (MerkleMountainRange,),
               {'HASHTAG': HashTag(u), '__slots__': [], 'VALUE_SERIALIZER': kind.ser, '__module__': 'lab'})
    cls = make_mmr_subclass(cls)
    return cls, kind, MMRModel(pm.tag(u), kind)


class KeyKind:
    """Kinds of keys: prefix() is the model of key2prefix"""
    def __init__(self, ser, nbytes=None, bits=None, mask=None):
        self.ser, self.nbytes, self.bits, self.mask = ser, nbytes, bits, mask


def bits_of_int(v, n):
    return tuple((v >> (n - 1 - k)) & 1 for k in range(n))


class KInt:
    """Integers of a fixed width, most significant bit first"""
    def __init__(self, nbits):
        self.nbits = nbits
        self.ser = UInt64

    def make(self, rng):
        return gen.int_in(rng, 0, 2**self.nbits - 1)

    def near(self, rng, k):
        return k ^ (1 << rng.randrange(self.nbits)) if rng.random() < 0.7 else k ^ rng.getrandbits(rng.randint(1, self.nbits))

    def bits(self, k):
        return bits_of_int(k, self.nbits)

    def key2prefix(self, key):
        return Bits.from_bytes((key << (-self.nbits % 8)).to_bytes((self.nbits + 7) // 8, 'big'), self.nbits)

    def enc(self, k):
        return pm.varuint(k)
    commit = enc

    def real(self, k):
        return k

    def matches(self, got, k):
        return type(got) is int and got == k


class KBytes(KInt):
    def __init__(self, n):
        self.n = n
        self.nbits = 8 * n
        self.ser = FixedBytes(n)

    def make(self, rng):
        return gen.blob(rng, self.n)

    def near(self, rng, k):
        k = bytearray(k)
        k[rng.randrange(self.n)] ^= 1 << rng.randrange(8)
        return bytes(k)

    def bits(self, k):
        return pm.bits_of_bytes(k)

    def key2prefix(self, key):
        return Bits.from_bytes(key)

    def enc(self, k):
        return k
    commit = enc

    def matches(self, got, k):
        return type(got) is bytes and got == k


class KHashed(KBytes):
    """Variable length keys placed by their digest"""
    def __init__(self):
        self.ser = VarBytes(60)
        self.n = 60

    def make(self, rng):
        return gen.blob(rng, rng.randint(0, 60))

    def near(self, rng, k):
        return (k[:rng.randint(0, len(k))] + rng.randbytes(rng.randint(0, 4)))[:60]

    def bits(self, k):
        return pm.bits_of_bytes(hashlib.sha256(k).digest())

    def key2prefix(self, key):
        return Bits.from_bytes(hashlib.sha256(key).digest())

    def enc(self, k):
        return pm.varuint(len(k)) + k
    commit = enc


class KBox(KInt):
    """Proofs as keys, with the default placement by hash"""
    def __init__(self):
        self.ser = Boxed
        self.key2prefix = None

    def make(self, rng):
        return gen.int_in(rng, 0, 2**64 - 1)

    def near(self, rng, k):
        return k ^ (1 << rng.randrange(64))

    def bits(self, k):
        return pm.bits_of_bytes(self.commit(k))

    def enc(self, k):
        return b'\x00' + pm.varuint(k)

    def commit(self, k):
        return pm.sha(BOX_TAG + pm.sha(pm.varuint(k)))

    def real(self, k):
        return Boxed(n=k)

    def matches(self, got, k):
        return isinstance(got, Boxed) and bytes(got.hash) == self.commit(k)


KEYKINDS = [lambda r: KInt(r.choice((1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 32, 33, 48, 63, 64))),
            lambda r: KInt(r.choice((3, 4, 5, 6))), lambda r: KInt(8),
            lambda r: KBytes(r.choice((1, 2, 4, 20, 32, 33))), lambda r: KHashed(), lambda r: KBox()]


class MBModel:
    """The commitment of a mapping, by the recursive definition"""
    def __init__(self, tag, kk, vk):
        self.kk, self.vk = kk, vk
        self._bits = {}
        self.t_empty, self.t_leaf, self.t_inner = (pm.derive(t, tag) for t in (MB_EMPTY, MB_LEAF, MB_INNER))

    def bits(self, k):
        b = self._bits.get(k)
        if b is None:
            b = self._bits[k] = self.kk.bits(k)
        return b

    def order(self, d):
        return sorted(d, key=self.bits)

    def split(self, keys):
        """(common prefix, left keys, right keys) of ordered keys"""
        a, b = self.bits(keys[0]), self.bits(keys[-1])
        n = 0
        while a[n] == b[n]:
            n += 1
        k = 0
        while not self.bits(keys[k])[n]:
            k += 1
        return a[:n], keys[:k], keys[k:]

    def tree(self, d, keys=None):
        """Nested ('leaf', key, data hash, hash) | ('inner', prefix, left, right, data hash, hash)"""
        if keys is None:
            keys = self.order(d)
        if not keys:
            dh = pm.sha(b'')
            return ('empty', dh, pm.sha(self.t_empty + dh))
        if len(keys) == 1:
            dh = pm.sha(self.kk.commit(keys[0]) + self.vk.commit(d[keys[0]]))
            return ('leaf', keys[0], dh, pm.sha(self.t_leaf + dh))
        prefix, lk, rk = self.split(keys)
        l, r = self.tree(d, lk), self.tree(d, rk)
        dh = pm.sha(pm.enc_bits(prefix) + l[-1] + r[-1])
        return ('inner', prefix, l, r, dh, pm.sha(self.t_inner + dh))

    def hash(self, d):
        return self.tree(d)[-1]

    def ser(self, d, tree=None, need=None):
        """need: bit strings of keys that were looked up, None for everything"""
        t = self.tree(d) if tree is None else tree
        if need is not None and not need:
            return b'\xff' + pm.varuint(['empty', 'leaf', 'inner'].index(t[0])) + t[-2]
        if t[0] == 'empty':
            return b'\x00\x00'
        if t[0] == 'leaf':
            return b'\x00\x01' + self.kk.enc(t[1]) + self.vk.enc(d[t[1]])
        p = t[1]
        if need is None:
            ln = rn = None
        else:
            under = [b for b in need if b[:len(p)] == p and len(b) > len(p)]
            ln = [b for b in under if not b[len(p)]]
            rn = [b for b in under if b[len(p)]]
        return b'\x00\x02' + pm.enc_bits(p) + self.ser(d, t[2], ln) + self.ser(d, t[3], rn)


def make_mb_class(rng, kk=None, vk=None):
    kk = kk or rng.choice(KEYKINDS)(rng)
    vk = vk or rng.choice(VALUES)()
    u = prooflab.rand_uuid(rng)
    _n[0] += 1
    d = {'HASHTAG': HashTag(u), '__slots__': [], 'KEY_SERIALIZER': kk.ser, 'VALUE_SERIALIZER': vk.ser, '__module__': 'lab'}
    if kk.key2prefix is not None:
        d['key2prefix'] = staticmethod(kk.key2prefix)
    cls = make_MerbinnerTree_subclass(type('Mb%d' % _n[0], (MerbinnerTree,), d))
    return cls, kk, vk, MBModel(pm.tag(u), kk, vk)

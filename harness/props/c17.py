"""Globally unique map: a closed prefix verifies exactly over what its seal was closed over"""
from harness.worker import Suite
from harness import gen
from harness.models import pm, btc, trees, prooflab, seal as M
from harness.props.c14 import refuses, T_FAKE, T_FAKEW, T_BTC, T_BTCW, T_IN, T_OUT, PAD, xor, seal_data
from bitcoin.core import COutPoint, CTransaction, CTxIn, CTxOut
from bitcoin.core.script import CScript
from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof
from proofchains.core.uniquebits.gumap import GuMap, make_GuMap_subclass
from proofchains.core.uniquebits.singleuseseal import (
    BitcoinSingleUseSeal, BitcoinSealWitness, FakeSingleUseSeal, FakeSealWitness)
from proofmarshal.bits import Bits
from proofmarshal.proof import PrunedError
from proofmarshal.serialize import HashTag, SerializerTypeError, DeserializationError

RULE = ('random maps of prefixes closed over key/value pairs or children with real and fake seals; digest given to the seal, '
        'commitments and prefixes compared with an independent calculation; every part then exchanged for another and '
        'verification decided, whole, pruned and over the wire. Non-trivial: distinct (node, verdict).')

G_UNUSED = pm.tag('dae47bef-d9a3-4971-a6a4-1c67c5f02c11')
G_LEAF = pm.tag('0c60f344-9109-4930-aec1-432c5750fcba')
G_INNER = pm.tag('6893cac7-e834-49cd-8e95-77707b0499b5')
CL = pm.tag('59c17f37-7e26-4aea-8a5b-7c0db66af35b')
CI = pm.tag('b925044d-320e-4c1f-9ef8-20614d260676')


class G:
    def __init__(self, rng):
        self.kk = rng.choice(trees.KEYKINDS)(rng)
        self.vk = rng.choice(trees.VALUES)()
        u = prooflab.rand_uuid(rng)
        d = {'HASHTAG': HashTag(u), '__slots__': [], 'KEY_SERIALIZER': self.kk.ser, 'VALUE_SERIALIZER': self.vk.ser,
             'SEAL_CLASS': BitcoinSingleUseSeal, 'WITNESS_CLASS': BitcoinSealWitness, '__module__': 'lab'}
        if self.kk.key2prefix is not None:
            d['key2prefix'] = staticmethod(self.kk.key2prefix)
        self.cls = make_GuMap_subclass(type('Gu', (GuMap,), d))
        t = pm.tag(u)
        self.t_unused, self.t_leaf, self.t_inner = (pm.derive(x, t) for x in (G_UNUSED, G_LEAF, G_INNER))
        # the contents tags are derived from the tag of the variant
        self.c_leaf, self.c_inner = pm.derive(CL, self.t_leaf), pm.derive(CI, self.t_inner)


class MSeal:
    def __init__(self, rng, fake=None):
        self.fake = fake
        if fake is None:
            self.op = btc.MOut(gen.blob(rng, 32), gen.int_in(rng, 0, btc.MASK32))
            self.nonce = gen.blob(rng, 16)

    @property
    def hash(self):
        if self.fake is not None:
            return pm.sha(T_FAKE + pm.sha(self.fake))
        return pm.sha(T_BTC + pm.sha(seal_data(self.op, self.nonce)))

    def ser(self):
        return b'\x00' + (self.fake if self.fake is not None else seal_data(self.op, self.nonce))

    def uni(self):
        return (b'\x00' if self.fake is not None else b'\x01') + self.ser()

    def real(self):
        if self.fake is not None:
            return FakeSingleUseSeal(committed_hash=self.fake)
        return BitcoinSingleUseSeal(outpoint=COutPoint(self.op.h, self.op.n), nonce=self.nonce)


class MWit:
    """Witness closing a seal over a digest"""
    def __init__(self, rng, seal, digest):
        self.seal, self.digest = seal, digest
        if seal.fake is None:
            self.tx = btc.MTx(1, [(seal.op.h, seal.op.n, b'', btc.MASK32)], [(0, rng.choice(M.forms(digest)))], 0)
            for _ in range(rng.randint(0, 1)):
                self.tx.vin.append(btc.gen_vin(rng, 20))

    @property
    def hash(self):
        if self.seal.fake is not None:
            return pm.sha(T_FAKEW + pm.sha(self.seal.hash))
        def part(tag):
            return pm.sha(tag + pm.sha(pm.varuint(0) + xor(self.tx.txid(), PAD)))
        return pm.sha(T_BTCW + pm.sha(self.seal.hash + part(T_IN) + part(T_OUT)))

    def uni(self):
        if self.seal.fake is not None:
            return b'\x00\x00' + self.seal.ser()
        t = self.tx.ser()
        part = b'\x00' + pm.varuint(0) + b'\x00' + pm.varuint(len(t)) + t
        return b'\x01\x00' + self.seal.ser() + part + part

    def real(self):
        if self.seal.fake is not None:
            return FakeSealWitness(seal=self.seal.real())
        tp = TxProof(tx=self.tx.real())
        return BitcoinSealWitness(seal=self.seal.real(), txinproof=TxInProof(i=0, txproof=tp), txoutproof=TxOutProof(i=0, txproof=tp))

    def verifies(self, digest):
        return (self.seal.fake if self.seal.fake is not None else self.digest) == digest


class Node:
    """kind unused(prefix, seal) | leaf(key, value, wit) | inner(prefix, left, right, wit)"""
    def __init__(self, g, kind, **kw):
        self.g, self.kind = g, kind
        self.__dict__.update(kw)

    @property
    def pfx(self):
        return tuple(self.g.kk.bits(self.key)) if self.kind == 'leaf' else self.prefix

    @property
    def sl(self):
        return self.seal if self.kind == 'unused' else self.wit.seal

    def digest(self):
        g = self.g
        if self.kind == 'leaf':
            return pm.sha(g.c_leaf + g.kk.commit(self.key) + g.vk.commit(self.value))
        return pm.sha(g.c_inner + self.left.sl.hash + self.right.sl.hash)

    @property
    def hash(self):
        g = self.g
        if self.kind == 'unused':
            return pm.sha(g.t_unused + pm.sha(pm.enc_bits(self.prefix) + self.seal.hash))
        if self.kind == 'leaf':
            return pm.sha(g.t_leaf + pm.sha(self.wit.hash + g.kk.commit(self.key) + g.vk.commit(self.value)))
        return pm.sha(g.t_inner + pm.sha(pm.enc_bits(self.prefix) + self.wit.hash + self.left.hash + self.right.hash))

    def ser(self):
        g = self.g
        if self.kind == 'unused':
            return b'\x00\x00' + pm.enc_bits(self.prefix) + self.seal.uni()
        if self.kind == 'leaf':
            return b'\x00\x01' + self.wit.uni() + g.kk.enc(self.key) + g.vk.enc(self.value)
        return b'\x00\x02' + pm.enc_bits(self.prefix) + self.wit.uni() + self.left.ser() + self.right.ser()

    def verifies(self):
        return self.kind == 'unused' or self.wit.verifies(self.digest())

    def real(self):
        c = self.g.cls
        if self.kind == 'unused':
            return c.UnusedPrefix(prefix=Bits(self.prefix), seal=self.seal.real())
        if self.kind == 'leaf':
            return c.LeafPrefix(witness=self.wit.real(), key=self.g.kk.real(self.key), value=self.g.vk.real(self.value))
        return c.InnerPrefix(prefix=Bits(self.prefix), witness=self.wit.real(), left=self.left.real(), right=self.right.real())


def grow(rng, mon, g, depth):
    """(model, real) built through the constructors of the library"""
    r = rng.random()
    p = tuple(rng.randrange(2) for _ in range(rng.randint(0, 12)))
    fake_seal = rng.random() < 0.25
    if depth == 0 or r < 0.3:
        s = MSeal(rng, gen.blob(rng, 32) if fake_seal else None)
        m = Node(g, 'unused', prefix=p, seal=s)
        return m, mon.call('UnusedPrefix', m.real)
    if r < 0.6:
        key, value = g.kk.make(rng), g.vk.make(rng)
        m = Node(g, 'leaf', key=key, value=value)
        s = MSeal(rng, m.digest() if fake_seal else None)
        m.wit = MWit(rng, s, m.digest())
        up = g.cls.UnusedPrefix(prefix=Bits(p), seal=s.real())
        asked = []

        def make(seal, h):
            asked.append((seal, h))
            return m.wit.real()
        o = mon.call('LeafPrefix.from_unused_prefix', g.cls.LeafPrefix.from_unused_prefix, up, g.kk.real(key), g.vk.real(value), make)
        mon.check(len(asked) == 1 and asked[0][0] == up.seal, 'the seal is not closed exactly once')
        mon.same(bytes(asked[0][1]), m.digest(), 'digest the seal is closed over (leaf)')
        mon.event('seals closed')
        return m, o
    lm, lo = grow(rng, mon, g, depth - 1)
    rm, ro = grow(rng, mon, g, depth - 1)
    m = Node(g, 'inner', left=lm, right=rm)
    if r < 0.8:
        k = 0
        while k < min(len(lm.pfx), len(rm.pfx)) and lm.pfx[k] == rm.pfx[k]:
            k += 1
        m.prefix = lm.pfx[:k]
        m.wit = MWit(rng, MSeal(rng, m.digest()), m.digest())
        return m, mon.call('InnerPrefix.from_children', g.cls.InnerPrefix.from_children, lo, ro)
    m.prefix = p
    s = MSeal(rng, m.digest() if fake_seal else None)
    m.wit = MWit(rng, s, m.digest())
    up = g.cls.UnusedPrefix(prefix=Bits(p), seal=s.real())
    asked = []

    def make(seal, h):
        asked.append((seal, h))
        return m.wit.real()
    o = mon.call('InnerPrefix.from_unused_prefix', g.cls.InnerPrefix.from_unused_prefix, up, lo, ro, make)
    mon.check(len(asked) == 1 and asked[0][0] == up.seal, 'the seal is not closed exactly once')
    mon.same(bytes(asked[0][1]), m.digest(), 'digest the seal is closed over (inner)')
    mon.event('seals closed')
    return m, o


def examine(mon, o, m, what):
    g = m.g
    mon.same(bytes(o.hash), m.hash, what + ': commitment of a %s prefix' % m.kind)
    mon.eq(tuple(o.prefix), m.pfx, what + ': prefix')
    mon.check(type(o.prefix) is Bits, what + ': prefix is not Bits')
    mon.same(bytes(o.seal.hash), m.sl.hash, what + ': seal')
    if m.verifies():
        mon.call(what + ': verify', o.verify)
    else:
        refuses(mon, what + ': verify', o.verify)
    mon.state('node', repr((m.kind, m.hash, m.verifies())))
    if m.kind == 'inner':
        examine(mon, o.left, m.left, what)
        examine(mon, o.right, m.right, what)
    elif m.kind == 'leaf':
        mon.check(g.kk.matches(o.key, m.key) and g.vk.matches(o.value, m.value), what + ': key and value')


def trips(mon, o, m):
    cls = m.g.cls
    ser = mon.call('serialize', o.serialize)
    mon.same(ser, m.ser(), 'serialized form of a %s prefix' % m.kind)
    back = mon.call('deserialize', cls.deserialize, m.ser())
    mon.same(back.serialize(), ser, 'serialized again')
    examine(mon, back, m, 'read back')
    p = o.prune()
    if m.verifies():
        mon.call('verify pruned', p.verify)
    else:
        refuses(mon, 'verify pruned', p.verify)
    sent = cls.deserialize(p.serialize())
    mon.same(bytes(sent.hash), m.hash, 'commitment of a pruned prefix read back')
    if m.kind != 'unused':
        if m.verifies():
            mon.call('verify after a trip', sent.verify)
        else:
            refuses(mon, 'verify after a trip', sent.verify)


def case(rng, mon, i):
    g = G(rng)
    for _ in range(3):
        m, o = grow(rng, mon, g, rng.choice((1, 1, 2, 3)))
        mon.check(m.verifies(), 'harness: grown node does not verify')
        examine(mon, o, m, 'grown')
        trips(mon, o, m)
        # exchange one part for another
        for _ in range(4):
            b = exchange(rng, mon, g, m)
            if b is not None:
                bo = mon.call('construct', b.real)
                examine(mon, bo, b, 'exchanged')
                trips(mon, bo, b)


def exchange(rng, mon, g, m):
    if m.kind == 'unused':
        return None
    if m.kind == 'leaf':
        r = rng.randrange(4)
        kw = dict(key=m.key, value=m.value, wit=m.wit)
        if r == 0:
            kw['key'] = g.kk.near(rng, m.key)
        elif r == 1:
            v = g.vk.make(rng)
            kw['value'] = v
        elif r == 2:
            kw['wit'] = MWit(rng, MSeal(rng), gen.twin(rng, m.digest()))
        else:
            kw['wit'] = MWit(rng, MSeal(rng, gen.twin(rng, m.digest())), rng.choice((m.digest(), gen.blob(rng, 32), gen.twin(rng, m.digest()))))
        return Node(g, 'leaf', **kw)
    kw = dict(prefix=m.prefix, left=m.left, right=m.right, wit=m.wit)
    r = rng.randrange(7)
    if r == 0:
        kw['left'], kw['right'] = m.right, m.left
    elif r in (1, 2):
        side = rng.choice(('left', 'right'))
        kw[side] = grow(rng, mon, g, 1)[0]
    elif r == 3:
        # another content under the same seal: must still verify here
        side = rng.choice(('left', 'right'))
        x = kw[side]
        if x.kind == 'unused' and x.seal.fake is None:
            n = Node(g, 'leaf', key=g.kk.make(rng), value=g.vk.make(rng))
            n.wit = MWit(rng, x.seal, n.digest())
            kw[side] = n
        else:
            kw[side] = Node(g, 'unused', prefix=(1,), seal=x.sl)
    elif r == 4:
        kw['wit'] = MWit(rng, MSeal(rng), gen.twin(rng, m.digest()))
    elif r == 5:
        kw['wit'] = MWit(rng, MSeal(rng, rng.choice((pm.sha(m.digest()), gen.twin(rng, m.digest())))), m.digest())
    else:
        kw['left'] = m.right
    return Node(g, 'inner', **kw)


def types(rng, mon, i):
    g = G(rng)
    s = MSeal(rng)
    up = g.cls.UnusedPrefix(prefix=Bits([0]), seal=s.real())
    w = FakeSealWitness.from_hash(bytes(32))
    for bad in (None, bytes(32), w, up):
        mon.raises('UnusedPrefix sealed by a %s' % type(bad), SerializerTypeError, lambda: g.cls.UnusedPrefix(prefix=Bits(), seal=bad))
    for bad in (None, [0], b'\x00', (1,)):
        mon.raises('UnusedPrefix at a %s' % type(bad), SerializerTypeError, lambda: g.cls.UnusedPrefix(prefix=bad, seal=s.real()))
    g2 = G(rng)
    o2 = g2.cls.UnusedPrefix(prefix=Bits([1]), seal=s.real())
    for bad in (None, s.real(), o2, bytes(32)):
        mon.raises('InnerPrefix over a %s' % type(bad), SerializerTypeError,
                   lambda: g.cls.InnerPrefix(prefix=Bits(), witness=w, left=up, right=bad))
    for bad in (None, s.real(), up):
        mon.raises('InnerPrefix witnessed by a %s' % type(bad), SerializerTypeError,
                   lambda: g.cls.InnerPrefix(prefix=Bits(), witness=bad, left=up, right=up))
    # witnesses made for something else do not verify
    def wrong(seal, h):
        return MWit(rng, MSeal(rng), pm.sha(h)).real()
    o = g.cls.LeafPrefix.from_unused_prefix(up, g.kk.real(g.kk.make(rng)), g.vk.real(g.vk.make(rng)), wrong)
    refuses(mon, 'leaf with a witness over something else', o.verify)
    o = g.cls.InnerPrefix.from_unused_prefix(up, up, up, wrong)
    refuses(mon, 'inner prefix with a witness over something else', o.verify)
    mon.state('types', i)


SUITES = [Suite('maps', case, 3200, 12000), Suite('construction', types, 800, 2000)]

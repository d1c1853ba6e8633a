"""Seals and witnesses: commitments, and fake seals bound to one hash"""
from harness.worker import Suite
from harness import gen
from harness.models import pm, btc
from bitcoin.core import COutPoint
from proofchains.core.uniquebits.singleuseseal import (
    SingleUseSeal, FakeSingleUseSeal, FakeSealWitness, BitcoinSingleUseSeal, BitcoinSealWitness)
from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof, OutPointProof
from proofmarshal.proof import PrunedError
from proofmarshal.serialize import SerializerTypeError, SerializerValueError, DeserializationError

RULE = ('random seals and witnesses of every class: commitment and serialized form against an independent calculation, '
        'identity of seals by content, fake witnesses offered the right hash and near misses, whole, pruned and over '
        'the wire. Non-trivial: distinct commitments and distinct (witness, hash) decisions.')

T_FAKE = pm.tag('e5690d73-16e3-4f8f-bd4f-148c32d37baf')
T_FAKEW = pm.tag('a5092f56-3a31-476a-ac81-1b00211140eb')
T_BTC = pm.tag('b59093bf-527f-4d2a-9a51-3c2e3d2f0c25')
T_BTCW = pm.tag('2ca464a0-1b8c-4aa5-8e72-5d3aaa804cbd')
T_IN = pm.tag('65d34d83-3291-4813-9119-bd7e29b9dea3')
T_OUT = pm.tag('ed624663-7a20-4dd6-8980-9870003dfbe7')
T_OP = pm.tag('557eb533-63be-497d-b163-7d1875de9681')
PAD = b'L\xf8\x10\xb7=\xc6\x05\xfb\xe6\xc2\x15jpA\xe3p\xf4u\x0e9\xd2\xd1W1\x99\xc7r\xc72K\xd0T'


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def seal_data(outpoint, nonce):
    o = outpoint.ser()
    return pm.varuint(len(o)) + o + nonce


def near(rng, h):
    """Hashes close to h, and other 32 byte strings"""
    b = bytearray(h)
    b[rng.choice((0, len(h) - 1, rng.randrange(len(h))))] ^= 1 << rng.randrange(8)
    return [bytes(b), h[::-1], bytes(32), pm.sha(h), gen.blob(rng, 32), btc.dsha(h), h[1:] + h[:1]]


def refuses(mon, what, fn, *args):
    """Not verified: any exception says so"""
    st, v = mon.outcome(what, fn, *args)
    mon.check(st == 'error', what + ': accepted', *args)
    mon.event('refused')


def fake(rng, mon, i):
    for _ in range(6):
        h = gen.blob(rng, 32)
        seal = mon.call('seal', FakeSingleUseSeal, committed_hash=h)
        w = mon.call('from_hash', FakeSealWitness.from_hash, h)
        sh = pm.sha(T_FAKE + pm.sha(h))
        mon.same(bytes(seal.hash), sh, 'commitment of a fake seal')
        mon.same(bytes(w.hash), pm.sha(T_FAKEW + pm.sha(sh)), 'commitment of a fake witness')
        mon.check(w.seal == seal, 'witness is for another seal')
        mon.same(w.serialize(), b'\x00\x00' + h, 'serialized fake witness')
        forms = [w, w.prune(), FakeSealWitness.deserialize(w.serialize())]
        p = w.prune()
        mon.call('verify a pruned witness', p.verify_hash, h)
        forms.append(FakeSealWitness.deserialize(p.serialize()))
        for f in forms:
            mon.call('verify_hash', f.verify_hash, h)
            for x in near(rng, h):
                if x != h:
                    refuses(mon, 'verify_hash of another hash', f.verify_hash, x)
            for x in (h[:-1], h + b'\x00', b'', h[:20]):
                refuses(mon, 'verify_hash of a shortened or extended hash', f.verify_hash, x)
        mon.state('decision', h)
        blind = FakeSealWitness.deserialize(w.prune().serialize())
        mon.raises('verifying a fully pruned witness', PrunedError, blind.verify_hash, h)
        for bad in (h[:-1], h + b'x', b'', None, h.hex(), bytearray(h)):
            mon.raises('fake seal over %r' % type(bad), (SerializerTypeError, SerializerValueError), FakeSealWitness.from_hash, bad)


def bitcoin_seals(rng, mon, i):
    for _ in range(6):
        op = btc.MOut(gen.blob(rng, 32), gen.int_in(rng, 0, btc.MASK32))
        nonce = gen.blob(rng, 16)
        s = mon.call('seal', BitcoinSingleUseSeal, outpoint=COutPoint(op.h, op.n), nonce=nonce)
        dh = pm.sha(seal_data(op, nonce))
        mon.same(bytes(s.data_hash), dh, 'data hash of a seal')
        mon.same(bytes(s.hash), pm.sha(T_BTC + dh), 'commitment of a seal')
        mon.same(s.serialize(), b'\x00' + seal_data(op, nonce), 'serialized seal')
        back = mon.call('deserialize', BitcoinSingleUseSeal.deserialize, s.serialize())
        mon.check(back == s and back.nonce == nonce and back.outpoint.hash == op.h and back.outpoint.n == op.n, 'seal read back')
        mon.state('seal', bytes(s.hash))
        # every bit of the outpoint and of the nonce is part of the identity
        b = bytearray(op.h)
        b[rng.randrange(32)] ^= 1 << rng.randrange(8)
        m = bytearray(nonce)
        m[rng.randrange(16)] ^= 1 << rng.randrange(8)
        for o2, n2 in ((btc.MOut(bytes(b), op.n), nonce), (btc.MOut(op.h, op.n ^ (1 << rng.randrange(32))), nonce), (op, bytes(m))):
            s2 = BitcoinSingleUseSeal(outpoint=COutPoint(o2.h, o2.n), nonce=n2)
            mon.check(s2 != s and not (s2 == s) and s2.hash != s.hash, 'different seals are equal', o2.h, o2.n, n2)
        for bad in (nonce[:-1], nonce + b'x', b'', None, bytearray(nonce)):
            mon.raises('seal with nonce %r' % (bad,), (SerializerTypeError, SerializerValueError),
                       lambda: BitcoinSingleUseSeal(outpoint=COutPoint(op.h, op.n), nonce=bad))
        for bad in (None, op.ser(), (op.h, op.n), s):
            mon.raises('seal over a %s' % type(bad), SerializerTypeError, lambda: BitcoinSingleUseSeal(outpoint=bad, nonce=nonce))
        enc = s.serialize()
        for k in {0, 1, len(enc) - 1, rng.randrange(len(enc))}:
            mon.raises('truncated seal', DeserializationError, BitcoinSingleUseSeal.deserialize, enc[:k])
        mon.raises('seal with junk', DeserializationError, BitcoinSingleUseSeal.deserialize, enc + b'\x00')
        p = s.prune()
        mon.same(bytes(p.hash), bytes(s.hash), 'commitment of a pruned seal')
        blind = BitcoinSingleUseSeal.deserialize(p.serialize())
        mon.same(bytes(blind.hash), bytes(s.hash), 'commitment of a blinded seal')
        mon.check(blind == s and hash(blind) == hash(s), 'a blinded seal is not equal to the seal')
        mon.check(op.h not in p.serialize() or op.h in (bytes(32),), 'a pruned seal discloses its outpoint')
        mon.raises('outpoint of a blinded seal', PrunedError, getattr, blind, 'outpoint')


SUITES = [Suite('fake', fake, 6000, 20000), Suite('bitcoin', bitcoin_seals, 6000, 20000)]

"""Transaction proofs: commitment to the txid, parts found by index, pruning"""
from harness.worker import Suite
from harness import gen
from harness.models import pm, btc, collide
from harness.props.c14 import T_IN, T_OUT, T_OP, PAD, xor, refuses
from bitcoin.core import CTransaction, COutPoint
from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof, OutPointProof, CTransactionSerializer, COutPointSerializer
from proofmarshal.proof import PrunedError
from proofmarshal.serialize import SerializerTypeError, SerializerValueError, DeserializationError, TruncationError

RULE = ('random transactions wrapped in proofs: hash against txid and pad, input, output and outpoint proofs at every '
        'index including out of range, before and after pruning and the wire. Non-trivial: distinct transactions and '
        'distinct (proof, index) decisions.')


def txser(tx):
    s = tx.ser()
    return pm.varuint(len(s)) + s


def case(rng, mon, i):
    tx = btc.gen_tx(rng)
    t = tx.real()
    txid = tx.txid()
    h = xor(txid, PAD)
    p = mon.call('TxProof', TxProof, tx=t)
    if rng.random() < 0.5:
        mon.same(p.txhash, txid, 'txhash')
    mon.same(bytes(p.hash), h, 'hash')
    mon.same(bytes(p.txhash), txid, 'txhash')
    mon.same(p.serialize(), b'\x00' + txser(tx), 'serialized proof')
    back = mon.call('deserialize', TxProof.deserialize, p.serialize())
    mon.check(back == p and back.tx.serialize() == tx.ser(), 'read back')
    mon.same(bytes(back.txhash), txid, 'txhash read back')
    for q in (p.prune(), back.prune()):
        mon.same(bytes(q.txhash), txid, 'txhash of a pruned proof')
        mon.same(q.is_fully_pruned, True, 'reading the txhash unprunes the transaction')
        blind = TxProof.deserialize(mon.call('serialize', q.serialize))
        mon.same(bytes(blind.txhash), txid, 'txhash of a pruned proof read back')
        mon.same(bytes(blind.hash), h, 'hash of a pruned proof read back')
        mon.check(blind == p and hash(blind) == hash(p), 'a pruned proof is not equal to the whole one')
        mon.raises('tx of a pruned proof', PrunedError, getattr, blind, 'tx')
        mon.check(q.tx.serialize() == tx.ser(), 'tx of a pruned proof')
        mon.same(bytes(TxProof.deserialize(q.serialize()).hash), h, 'hash after a visit')
    mon.state('tx', txid)
    other = btc.change_tx(rng, tx)
    op = TxProof(tx=other.real())
    mon.check(op != p and not (op == p) and op.hash != p.hash, 'proofs of different transactions are equal')
    # parts
    nin, nout = len(tx.vin), len(tx.vout)
    for cls, n, tag in ((TxInProof, nin, T_IN), (TxOutProof, nout, T_OUT)):
        for k in {0, n - 1, n, n + 1, rng.randint(0, n + 2), gen.int_in(rng, 0, btc.MASK32)}:
            if k < 0:
                continue
            part = mon.call(cls.__name__, cls, i=k, txproof=rng.choice((p, p.prune())))
            dh = pm.sha(pm.varuint(k) + h)
            mon.same(bytes(part.hash), pm.sha(tag + dh), 'commitment of a part')
            sent = cls.deserialize(part.serialize())
            mon.same(bytes(sent.hash), pm.sha(tag + dh), 'commitment of a part read back')
            q = part.prune()
            if k < n:
                mon.call('verify', part.verify)
                mon.call('verify pruned', q.verify)
                whole = cls.deserialize(q.serialize())
                mon.call('verify after a trip', whole.verify)
                for o in (part, q, whole):
                    if cls is TxInProof:
                        want = tx.vin[k]
                        o = o.txin
                        mon.eq((o.prevout.hash, o.prevout.n, bytes(o.scriptSig), o.nSequence), want, 'input %d' % k)
                    else:
                        o = o.txout
                        mon.eq((o.nValue, bytes(o.scriptPubKey)), tx.vout[k], 'output %d' % k)
            else:
                refuses(mon, 'verify part %d of %d' % (k, n), part.verify)
                refuses(mon, 'part %d of %d' % (k, n), lambda: part.txin if cls is TxInProof else part.txout)
            mon.state('part', (cls.__name__, k, txid))
    for cls in (TxInProof, TxOutProof):
        for bad in (-1, 2**32, 1.0, None, '0', True):
            mon.raises('%s at %r' % (cls.__name__, bad), (SerializerTypeError, SerializerValueError), lambda: cls(i=bad, txproof=p))
        for bad in (None, t, h, cls(i=0, txproof=p)):
            mon.raises('%s over a %s' % (cls.__name__, type(bad)), SerializerTypeError, lambda: cls(i=0, txproof=bad))
    n = gen.int_in(rng, 0, btc.MASK32)
    o = OutPointProof(txproof=p, n=n)
    mon.same(bytes(o.hash), pm.sha(T_OP + pm.sha(h + pm.varuint(n))), 'commitment of an outpoint proof')
    o2 = OutPointProof.deserialize(o.prune().serialize())
    mon.same(bytes(o2.hash), bytes(o.hash), 'commitment of a pruned outpoint proof')
    o3 = OutPointProof(txproof=p.prune(), n=n)
    b = OutPointProof.deserialize(o3.serialize())
    mon.eq((b.n, bytes(b.txproof.txhash)), (n, txid), 'outpoint proof without the transaction')
    mon.same(b.is_pruned, True, 'is_pruned')
    for bad in (None, tx.ser(), COutPoint(), p, 0):
        mon.raises('TxProof of a %s' % type(bad), SerializerTypeError, lambda: TxProof(tx=bad))


def serializers(rng, mon, i):
    for _ in range(5):
        tx = btc.gen_tx(rng)
        enc = txser(tx)
        mon.same(CTransactionSerializer.serialize(tx.real()), enc, 'transaction encoding')
        mon.same(CTransactionSerializer.deserialize(enc).serialize(), tx.ser(), 'transaction decoding')
        op = btc.MOut(gen.blob(rng, 32), gen.int_in(rng, 0, btc.MASK32))
        oenc = pm.varuint(36) + op.ser()
        mon.same(COutPointSerializer.serialize(COutPoint(op.h, op.n)), oenc, 'outpoint encoding')
        b = COutPointSerializer.deserialize(oenc)
        mon.eq((b.hash, b.n), (op.h, op.n), 'outpoint decoding')
        for ser, e in ((CTransactionSerializer, enc), (COutPointSerializer, oenc)):
            for k in {0, len(e) - 1, rng.randrange(len(e))}:
                mon.raises('truncated at %d of %d' % (k, len(e)), TruncationError, ser.deserialize, e[:k])
            mon.raises('junk at the end', DeserializationError, ser.deserialize, e + b'\x00')
            # a length that does not fit what is inside
            n = pm.read_varuint(e, 0)
            body = e[n[1]:]
            refuses(mon, 'inner junk', ser.deserialize, pm.varuint(len(body) + 1) + body + b'\x00')
            refuses(mon, 'inner truncation', ser.deserialize, pm.varuint(len(body) - 1) + body[:-1])
        mon.state('tx', tx.txid())


def colliding(rng, mon, i):
    """Transactions whose ids agree in some bytes are still different"""
    r = collide.txs(rng, btc.gen_tx(rng, 1, 1, 30), rng.choice((1, 2, 3, 4, 4)))
    if r is None:
        return
    a, b, where = r
    p, q = TxProof(tx=a.real()), TxProof(tx=b.real())
    for x in (p, p.prune(), TxProof.deserialize(p.prune().serialize())):
        for y in (q, q.prune(), TxProof.deserialize(q.prune().serialize())):
            mon.check(x != y and not (x == y), 'proofs of different transactions are equal; ids agree at %r' % (where,))
            mon.check(len({x, y, p, q}) == 2, 'set of two transactions')
    for cls in (TxInProof, TxOutProof):
        mon.check(cls(i=0, txproof=p) != cls(i=0, txproof=q), 'parts of different transactions are equal')
    mon.state('partly equal ids', repr((where, a.txid())))


SUITES = [Suite('colliding ids', colliding, 300, 600), Suite('proofs', case, 5600, 25000), Suite('serializers', serializers, 200, 8000)]

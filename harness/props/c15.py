"""Bitcoin seal witness: accepted exactly when the transaction closes the seal over the digest"""
from harness.worker import Suite
from harness import gen
from harness.models import pm, btc, collide, seal as M
from harness.props.c14 import refuses, T_BTC, T_BTCW, T_IN, T_OUT, PAD, xor, seal_data
from proofchains.core.uniquebits.singleuseseal import BitcoinSealWitness, BitcoinSingleUseSeal
from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof
from proofmarshal.proof import PrunedError
from proofmarshal.serialize import SerializerTypeError

RULE = ('random closing transactions with one thing at a time (or several) wrong: outpoint, index, transaction of either '
        'proof, output script one edit away from each accepted form, digest one bit off; verify() and verify_hash() compared '
        'with the definition, whole, pruned and over the wire. Non-trivial: distinct (witness, digest) decisions, by verdict.')


def make(rng):
    h = gen.blob(rng, 32)
    op = btc.MOut(gen.blob(rng, 32), rng.choice((0, 1, gen.int_in(rng, 0, btc.MASK32))))
    tx = btc.gen_tx(rng, rng.choice((1, 1, 2, 3, gen.size(rng, 260, 4) + 1)), rng.choice((1, 1, 2, 3, gen.size(rng, 260, 4) + 1)), 80)
    i = rng.randrange(len(tx.vin))
    j = rng.choice((0, rng.randrange(len(tx.vout))))
    v = tx.vin[i]
    tx.vin[i] = (op.h, op.n) + v[2:]
    tx.vout[j] = (tx.vout[j][0], rng.choice(M.forms(h)))
    return M.MWitness(op, gen.blob(rng, 16), i, tx, j, tx), h


def break_one(rng, w, h):
    """Make one thing wrong (sometimes it stays right)"""
    r = rng.randrange(11)
    if r == 0:
        b = bytearray(w.op.h)
        b[rng.choice((0, 31, rng.randrange(32)))] ^= 1 << rng.randrange(8)
        w.op = btc.MOut(bytes(b), w.op.n)
    elif r == 1:
        w.op = btc.MOut(w.op.h, rng.choice((w.op.n ^ (1 << rng.randrange(32)), 0, btc.MASK32)))
    elif r == 2:
        w.i = min(btc.MASK32, rng.choice((w.i + 1, max(0, w.i - 1), len(w.tx_in.vin), btc.MASK32)))
    elif r == 3:
        w.j = min(btc.MASK32, rng.choice((w.j + 1, max(0, w.j - 1), len(w.tx_out.vout), btc.MASK32)))
    elif r == 4:
        w.tx_out = btc.change_tx(rng, w.tx_out)
    elif r == 5:
        w.tx_in = btc.change_tx(rng, w.tx_in)
    elif r == 6:
        t = w.tx_in.copy()                  # the same spend, signed differently, in another transaction
        k = rng.randrange(len(t.vin))
        hh, n, s, q = t.vin[k]
        t.vin[k] = (hh, n, s + b'\x00', q)
        w.tx_in = t
    elif r in (7, 8):
        t = w.tx_out.copy()
        j = min(w.j, len(t.vout) - 1)
        t.vout[j] = (t.vout[j][0], rng.choice(M.near_scripts(rng, h)))
        if w.tx_in is w.tx_out or rng.random() < 0.5:
            w.tx_in = t
        w.tx_out = t
    elif r == 9:
        w.op = btc.MOut(w.op.h[::-1], w.op.n)
    else:
        k = rng.randrange(len(w.tx_in.vin))
        h_, n_ = w.tx_in.vin[k][:2]
        w.op = btc.MOut(h_, n_)
    return w


def decide(rng, mon, obj, w, digests, what):
    ok = w.closes()
    if ok:
        mon.call(what + ': verify', obj.verify)
        mon.state('accepted', repr((what, w.i, w.j, w.op.h, w.op.n, w.tx_in.txid())))
    else:
        refuses(mon, what + ': verify', obj.verify)
        mon.state('refused', repr((what, w.i, w.j, w.op.h, w.op.n, w.tx_in.txid(), w.tx_out.txid())))
    n = 0
    for h in dict.fromkeys(digests):
        if w.over(h):
            mon.call(what + ': verify_hash', obj.verify_hash, h)
            n += 1
        else:
            refuses(mon, what + ': verify_hash', obj.verify_hash, h)
        mon.event('decisions')
    mon.check(n <= 1, 'one output commits to two digests')
    return ok


def case(rng, mon, i):
    w, h = make(rng)
    for _ in range(rng.choice((0, 1, 1, 1, 2, 3))):
        break_one(rng, w, h)
    obj = mon.call('witness', w.real, rng)
    b = bytearray(h)
    b[rng.choice((0, 31, rng.randrange(32)))] ^= 1 << rng.randrange(8)
    digests = [h, bytes(b), h[::-1], bytes(32), gen.blob(rng, 32), pm.sha(h)]
    digests = list(dict.fromkeys(digests))
    refused_forms = [h[:31], h + b'\x00', b'', btc.hash160(h)]
    ok = decide(rng, mon, obj, w, digests, 'whole')
    for x in refused_forms:
        refuses(mon, 'verify_hash of %d bytes' % len(x), obj.verify_hash, x)
    # commitment
    def part(tag, i, tx):
        return pm.sha(tag + pm.sha(pm.varuint(i) + xor(tx.txid(), PAD)))
    sh = pm.sha(T_BTC + pm.sha(seal_data(w.op, w.nonce)))
    dh = pm.sha(sh + part(T_IN, w.i, w.tx_in) + part(T_OUT, w.j, w.tx_out))
    mon.same(bytes(obj.hash), pm.sha(T_BTCW + dh), 'commitment of the witness')
    p = obj.prune()
    decide(rng, mon, p, w, digests, 'pruned')
    sent = BitcoinSealWitness.deserialize(mon.call('serialize', p.serialize))
    mon.check(sent == obj, 'witness read back is not equal')
    decide(rng, mon, sent, w, digests if p.txoutproof.is_fully_pruned is False else [], 'sent')
    whole = BitcoinSealWitness.deserialize(obj.serialize())
    decide(rng, mon, whole, w, digests, 'read back')
    mon.check(whole.seal == w.seal(), 'seal of the witness')
    # a witness that does not show its parts verifies nothing
    blind = BitcoinSealWitness.deserialize(obj.prune().serialize())
    mon.raises('verify a blind witness', PrunedError, blind.verify)
    mon.raises('verify_hash of a blind witness', PrunedError, blind.verify_hash, h)
    if ok and w.i < len(w.tx_in.vin):
        tp = TxProof(tx=w.tx_in.real())
        hidden = BitcoinSealWitness(seal=w.seal(), txinproof=TxInProof(i=w.i, txproof=TxProof.deserialize(tp.prune().serialize())),
                                    txoutproof=TxOutProof(i=w.j, txproof=tp))
        refuses(mon, 'verify with the spending hidden', hidden.verify)


def types(rng, mon, i):
    w, h = make(rng)
    o = w.real()
    parts = dict(seal=o.seal, txinproof=o.txinproof, txoutproof=o.txoutproof)
    for k in parts:
        for bad in (None, h, o, o.txinproof.txproof, parts['txoutproof' if k != 'txoutproof' else 'txinproof'],
                    parts['seal'] if k != 'seal' else parts['txinproof']):
            kw = dict(parts)
            kw[k] = bad
            mon.raises('witness with a wrong ' + k, SerializerTypeError, lambda: BitcoinSealWitness(**kw))
            mon.state('mistyped', (k, type(bad).__name__))


def scripts(rng, mon, i):
    """Every near script, against every digest"""
    w, h = make(rng)
    for s in M.forms(h) + M.near_scripts(rng, h):
        t = w.tx_out.copy()
        t.vout[w.j] = (t.vout[w.j][0], s)
        w2 = M.MWitness(w.op, w.nonce, w.i, t, w.j, t)
        decide(rng, mon, w2.real(), w2, [h, h[::-1]], 'script')
        mon.state('script', s)


def colliding(rng, mon, i):
    """Spending and output in two transactions whose ids agree in some bytes"""
    w, h = make(rng)
    while len(w.tx_in.ser()) > 1500:
        w, h = make(rng)
    r = collide.txs(rng, w.tx_in, 5 if mon.tier == 'thorough' and i % 25 == 0 else rng.choice((1, 2, 3, 4, 4)))
    if r is None:
        return
    a, b, where = r
    assert all(a.txid()[k] == b.txid()[k] for k in where)
    for x, y in ((a, b), (b, a)):
        w2 = M.MWitness(w.op, w.nonce, w.i, x, w.j, y)
        decide(rng, mon, w2.real(), w2, [h, h[::-1]], 'ids that agree at %r' % (where,))
        w3 = M.MWitness(w.op, w.nonce, w.i, x, w.j, x)
        decide(rng, mon, w3.real(), w3, [h], 'one transaction')
    mon.state('partly equal ids', repr((where, a.txid())))


SUITES = [Suite('witnesses', case, 9600, 40000), Suite('scripts', scripts, 960, 4000), Suite('construction', types, 480, 1500),
          Suite('colliding ids', colliding, 300, 600)]

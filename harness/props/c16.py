"""Closing template: closes every seal it was made for"""
from harness.worker import Suite
from harness import gen
from harness.models import pm, btc, seal as M
from harness.props.c14 import refuses
from bitcoin.core import COutPoint, CTransaction, CMutableTransaction, CMutableTxIn, CTxIn, CTxOut
from bitcoin.core.script import CScript
from proofchains.core.uniquebits.singleuseseal import BitcoinSingleUseSeal, BitcoinSealWitness
from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof
from proofchains.uniquebits.singleuseseal import make_close_seal_tx_template

RULE = ('random digests, seal sets, methods and dust values: the template compared with the expected transaction, completed '
        'with extra inputs and outputs as a wallet would, and every seal witnessed and verified. Non-trivial: distinct templates.')


def case(rng, mon, i):
    for _ in range(3):
        h = gen.blob(rng, 32)
        n = rng.choice((0, 1, 1, 2, 3, gen.size(rng, 300, 8)))
        ops = []
        for _ in range(n):
            o = btc.MOut(gen.blob(rng, 32), gen.int_in(rng, 0, btc.MASK32))
            if ops and rng.random() < 0.3:
                o = btc.MOut(ops[-1].h, (ops[-1].n + 1) & btc.MASK32)
            if all(o.ser() != x.ser() for x in ops):
                ops.append(o)
        seals = [BitcoinSingleUseSeal(outpoint=COutPoint(o.h, o.n), nonce=gen.blob(rng, 16)) for o in ops]
        meth = rng.choice((None, 'op_return', 'p2sh', 'p2pkh'))
        kw = {} if meth is None else {'meth': meth}
        dust = 600
        if rng.random() < 0.4:
            dust = kw['dust'] = gen.int_in(rng, 0, 2**50)
        args = [s.prune() if rng.random() < 0.3 else s for s in seals]
        tx = mon.call('make_close_seal_tx_template', make_close_seal_tx_template, h, *args, **kw)
        form = {None: 0, 'op_return': 0, 'p2sh': 1, 'p2pkh': 2}[meth]
        want = btc.MTx(1, [(o.h, o.n, b'', btc.MASK32) for o in ops], [(dust if form else 0, M.forms(h)[form])], 0)
        mon.same(tx.serialize(), want.ser(), 'template for %d seals by %s' % (len(ops), meth))
        mon.state('template', want.ser())
        # a wallet adds inputs and outputs, and signs
        full = want.copy()
        full.vin = [(a, b, gen.blob(rng, 20), q) for a, b, _, q in full.vin]
        for _ in range(rng.randint(0, 2)):
            full.vin.append(btc.gen_vin(rng, 60))
        for _ in range(rng.randint(0, 2)):
            full.vout.append(btc.gen_vout(rng, 60))
        t2 = make_close_seal_tx_template(h, *args, **kw)
        mon.check(isinstance(tx, CMutableTransaction), 'the template is a mutable transaction')
        frozen = CTransaction.from_tx(tx)
        mon.same(frozen.serialize(), want.ser(), 'the template frozen')
        outpoints = [s.outpoint.serialize() for s in seals]
        for k, (a, b, scr, q) in enumerate(full.vin):
            if k < len(tx.vin):
                if isinstance(tx.vin[k], CMutableTxIn):
                    tx.vin[k].scriptSig = CScript(scr)
                else:
                    tx.vin[k] = CTxIn(tx.vin[k].prevout, CScript(scr), tx.vin[k].nSequence)
            else:
                tx.vin.append(CTxIn(COutPoint(a, b), CScript(scr), q))
        for v, scr in full.vout[len(tx.vout):]:
            tx.vout.append(CTxOut(v, CScript(scr)))
        mon.same(tx.serialize(), full.ser(), 'the template completed in place')
        mon.same(t2.serialize(), want.ser(), 'another template after this one was completed')
        mon.same(frozen.serialize(), want.ser(), 'the frozen template after the template was completed')
        mon.same([s.outpoint.serialize() for s in seals], outpoints, 'seals after the template was completed')
        for t in (frozen, CTransaction.from_tx(tx), full.real()):
            tp = TxProof(tx=t)
            for k, s in list(enumerate(seals))[:12]:
                w = BitcoinSealWitness(seal=s, txinproof=TxInProof(i=k, txproof=tp), txoutproof=TxOutProof(i=0, txproof=tp))
                mon.call('verify', w.verify)
                mon.call('verify_hash', w.verify_hash, h)
                mon.event('seals closed')
                refuses(mon, 'another digest', w.verify_hash, pm.sha(h))
                if len(seals) > 1:
                    o = seals[(k + 1) % len(seals)]
                    bad = BitcoinSealWitness(seal=o, txinproof=TxInProof(i=k, txproof=tp), txoutproof=TxOutProof(i=0, txproof=tp))
                    refuses(mon, 'another seal at this input', bad.verify)
    refuses(mon, 'unknown method', lambda: make_close_seal_tx_template(h, meth=rng.choice(('p2pk', 'OP_RETURN', '', None, 'p2wsh'))))


SUITES = [Suite('templates', case, 7200, 20000)]

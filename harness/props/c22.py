"""Transaction ids, block hashes and merkle roots"""
from harness.worker import Suite
from harness import gen
from harness.models import btc
from bitcoin.core import CTransaction, CMutableTransaction, CBlock, CBlockHeader, COutPoint, CTxIn, CTxOut, Hash, Hash160
from bitcoin.core.script import CScript
from bitcoin.core.serialize import uint256_from_str, uint256_to_shortstr

RULE = ('random transactions, headers, blocks and lists of ids of every small length: ids, block hashes, whole merkle trees and '
        'roots against an independent calculation, asked once and again, before and after other uses of the object. '
        'Non-trivial: distinct ids, roots and lists.')


def txs(rng, mon, i):
    m = btc.gen_tx(rng)
    for t in (m.real(), CTransaction.deserialize(m.ser())):
        uses = [lambda: t.serialize(), lambda: hash(t), lambda: t.is_coinbase(), lambda: repr(t)[:1], lambda: t == m.real()]
        rng.shuffle(uses)
        for u in uses[:rng.randint(0, 3)]:
            u()
        mon.same(mon.call('GetHash', t.GetHash), m.txid(), 'transaction id')
        for u in uses[:2]:
            u()
        mon.same(t.GetHash(), m.txid(), 'transaction id asked again')
    mu = m.real_mutable()
    mon.same(mu.GetHash(), m.txid(), 'id of a mutable transaction')
    o = m
    for _ in range(3):
        o = btc.change_tx(rng, o)
        mon.same(btc.become(mu, o).GetHash(), o.txid(), 'id of an edited transaction')
        mon.same(CTransaction.from_tx(mu).GetHash(), o.txid(), 'id of a copy of an edited transaction')
    o = btc.change_tx(rng, m)
    mon.check(o.real().GetHash() != m.txid(), 'different transactions have one id')
    mon.same(o.real().GetHash(), o.txid(), 'transaction id')
    mon.state('txid', m.txid())
    if m.vin:
        h, n, s, q = m.vin[0]
        i_ = CTxIn(COutPoint(h, n), CScript(s), q)
        mon.same(i_.prevout.GetHash(), btc.dsha(h + btc.le(n, 4)), 'hash of an outpoint')
        mon.same(i_.GetHash(), btc.dsha(h + btc.le(n, 4) + btc.compact(len(s)) + s + btc.le(q, 4)), 'hash of an input')
    d = gen.data(rng, 3000, 100)
    mon.same(Hash(d), btc.dsha(d), 'Hash')
    mon.same(Hash160(d), btc.hash160(d), 'Hash160')
    if i % 100 == 0:
        # about the sizes of buffers
        k = i // 100 % 23
        d = (gen.blob(rng, 251) * (2**k // 251 + 2))[:2**k + 2]
        for n in (2**k - 1, 2**k, 2**k + 1, 2**k + 2, 2**k + rng.choice((0, 1, 2**k // 2)) - rng.randrange(2)):
            mon.same(Hash(d[:n]), btc.dsha(d[:n]), 'Hash of %d bytes' % n)
            mon.same(Hash160(d[:n]), btc.hash160(d[:n]), 'Hash160 of %d bytes' % n)
            mon.state('hash size', n)
    b = gen.blob(rng, 32) + (gen.blob(rng, 4) if rng.random() < 0.3 else b'')
    v = int.from_bytes(b[:32], 'little')
    mon.same(uint256_from_str(b), v, 'uint256_from_str')
    mon.same(uint256_to_shortstr(v), ('%064x' % v)[:16], 'uint256_to_shortstr')


def blocks(rng, mon, i):
    m = btc.gen_block(rng)
    if rng.random() < 0.3 and m.txs:
        m.txs += m.txs[-rng.randint(1, len(m.txs)):]       # duplicates
    for b in (m.real(), CBlock.deserialize(m.ser())):
        if rng.random() < 0.5:
            hash(b)
        want = btc.dsha(m.header.ser())
        mon.same(mon.call('GetHash', b.GetHash), want, 'block hash')
        mon.same(b.GetHash(), want, 'block hash asked again')
        mon.same(b.get_header().GetHash(), want, 'hash of the header of a block')
        mon.same(CBlockHeader(*m.header.args()).GetHash(), want, 'hash of a header')
        ids = [t.txid() for t in m.txs]
        if ids:
            tree = [x for l in btc.merkle_levels(ids) for x in l]
            mon.eq(list(b.vMerkleTree), tree, 'merkle tree')
            mon.same(mon.call('calc_merkle_root', b.calc_merkle_root), tree[-1], 'merkle root')
            mon.same(b.calc_merkle_root(), tree[-1], 'merkle root asked again')
            mon.state('root', tree[-1])
        else:
            mon.raises('merkle root of an empty block', ValueError, b.calc_merkle_root)
            mon.eq(list(b.vMerkleTree), [], 'merkle tree of an empty block')
    if rng.random() < 0.3:
        mb = CBlock(*m.header.args(), vtx=[t.real_mutable() for t in m.txs])
        mon.check(mb == m.real(), 'block of mutable transactions')
        if m.txs:
            mon.same(mb.calc_merkle_root(), btc.merkle_root([t.txid() for t in m.txs]), 'merkle root of mutable transactions')
            mon.check(all(type(t) is CTransaction for t in mb.vtx), 'a block holds mutable transactions')
    mon.state('block', btc.dsha(m.header.ser()))


def streams(rng, mon, i):
    """Blocks, headers and transactions one after another in a stream, or somewhere inside of one"""
    import io
    ms = [btc.gen_block(rng) for _ in range(rng.randint(1, 3))]
    parts, want = [], []
    for m in ms:
        if rng.random() < 0.3:
            t = btc.gen_tx(rng)
            parts.append((CTransaction, t.ser()))
            want.append(t.txid())
        parts.append(rng.choice(((CBlock, m.ser()), (CBlock, m.ser()), (CBlockHeader, m.header.ser()))))
        want.append(btc.dsha(m.header.ser()))
    lead = rng.choice((b'', b'', gen.blob(rng, rng.randint(1, 100))))
    f = io.BytesIO(lead + b''.join(b for _, b in parts) + rng.choice((b'', b'junk')))
    if rng.random() < 0.3:
        f = io.BufferedReader(f)
    f.read(len(lead))
    got = [mon.call('stream_deserialize', c.stream_deserialize, f) for c, _ in parts]
    for k in rng.sample(range(len(got)), len(got)):
        mon.same(got[k].GetHash(), want[k], 'hash of part %d of a stream' % k)
        if parts[k][0] is CBlock:
            mon.same(got[k].get_header().GetHash(), want[k], 'hash of the header of part %d' % k)
    mon.state('stream', b''.join(want))


def ids(rng, mon, i):
    n = i % 70 if i < 140 else gen.size(rng, 2000, 100)
    if i % 1000 == 999:                         # more than a block holds, to see many levels
        n = (2**14, 2**16, 2**17)[i // 1000 % 3] + rng.choice((1, 1, 1, 2, 0, -1))
    l = [gen.blob(rng, 32) for _ in range(60)]
    l = [rng.choice(l) for k in range(n)] if n > 10000 else [gen.blob(rng, 32) if rng.random() < 0.9 or not k else b'\x01' * 32 for k in range(n)]
    for k in range(1, n):
        if rng.random() < 0.05:
            l[k] = l[k - 1]
    arg = rng.choice((list, tuple))(l)
    tree = mon.call('build_merkle_tree_from_txids', CBlock.build_merkle_tree_from_txids, arg)
    mon.eq(list(arg), l, 'the list of ids was changed')
    mon.eq(list(tree), [x for lv in btc.merkle_levels(l) for x in lv] if l else [], 'merkle tree of %d ids' % n)
    mon.state('ids', (n, b''.join(l)))
    if n:
        root = tree[-1]
        # any id changed, dropped, added or swapped gives another root, except the known duplication of a tail
        k = rng.randrange(n)
        x = bytearray(l[k])
        x[rng.choice((0, 31, rng.randrange(32)))] ^= 1 << rng.randrange(8)
        l2 = l[:k] + [bytes(x)] + l[k + 1:]
        for lx in (l2, l[:-1], l + [gen.blob(rng, 32)], l[::-1]):
            want = btc.merkle_root(lx) if lx else None
            got = CBlock.build_merkle_tree_from_txids(lx)
            mon.eq(got[-1] if got else None, want, 'merkle root of a neighbouring list')
            if lx is l2:
                mon.check(got[-1] != root, 'one id changed, same root')


SUITES = [Suite('transactions', txs, 15000, 60000), Suite('blocks', blocks, 6000, 25000), Suite('streams', streams, 2000, 10000), Suite('id lists', ids, 3000, 6000)]

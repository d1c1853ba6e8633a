"""Immutable objects never change; mutable copies are independent, and their hashes follow their fields"""
from harness.worker import Suite
from harness import gen
from harness.models import btc, immut
from bitcoin.core import (COutPoint, CTxIn, CTxOut, CTransaction, CBlockHeader, CBlock, CMutableOutPoint, CMutableTxIn,
                          CMutableTxOut, CMutableTransaction)
from bitcoin.core.script import CScript

RULE = ('random histories of copies (mutable from immutable, immutable from mutable, of every class) and field changes, every '
        'live object compared with its own model after every step; attempts to change every field of immutable objects; '
        'all kinds of objects of neighbouring blocks compared with each other. '
        'Non-trivial: distinct (operation, object kinds) steps and distinct transaction states.')


def rnd_script(rng):
    return CScript(btc.gen_script(rng, 60))


def same(mon, o, m, what):
    raw = m.ser()
    mon.same(o.serialize(), raw, what)
    mon.same(o.GetHash(), btc.dsha(raw), what + ': id')
    mon.check(hash(o) == hash(o.__class__.deserialize(raw)), what + ': hash()')


def change(rng, t, m):
    """Change one field of a mutable transaction and of its model"""
    r = rng.randrange(11)
    if r == 0:
        t.nVersion = m.version = gen.int_in(rng, -2**31, 2**31 - 1)
    elif r == 1:
        t.nLockTime = m.locktime = gen.int_in(rng, 0, btc.MASK32)
    elif r in (2, 3, 4, 5, 6) and m.vin:
        k = rng.randrange(len(m.vin))
        h, n, s, q = m.vin[k]
        if r == 2:
            h = t.vin[k].prevout.hash = gen.blob(rng, 32)
        elif r == 3:
            n = t.vin[k].prevout.n = gen.int_in(rng, 0, btc.MASK32)
        elif r == 4:
            t.vin[k].scriptSig = rnd_script(rng)
            s = bytes(t.vin[k].scriptSig)
        elif r == 5:
            q = t.vin[k].nSequence = gen.int_in(rng, 0, btc.MASK32)
        else:
            h, n = gen.blob(rng, 32), 3
            t.vin[k].prevout = CMutableOutPoint(h, n)
        m.vin[k] = (h, n, s, q)
    elif r in (7, 8) and m.vout:
        k = rng.randrange(len(m.vout))
        v, s = m.vout[k]
        if r == 7:
            v = t.vout[k].nValue = gen.int_in(rng, -2**63, 2**63 - 1)
        else:
            t.vout[k].scriptPubKey = rnd_script(rng)
            s = bytes(t.vout[k].scriptPubKey)
        m.vout[k] = (v, s)
    elif r == 9:
        if m.vin and rng.random() < 0.5:
            k = rng.randrange(len(m.vin))
            del t.vin[k], m.vin[k]
        else:
            t.vin.append(CMutableTxIn(CMutableOutPoint(bytes(32), 7)))
            m.vin.append((bytes(32), 7, b'', btc.MASK32))
    else:
        if m.vout and rng.random() < 0.5:
            k = rng.randrange(len(m.vout))
            del t.vout[k], m.vout[k]
        else:
            t.vout.append(CMutableTxOut(5, CScript(b'\x51')))
            m.vout.append((5, b'\x51'))
    return r


def histories(rng, mon, i):
    m = btc.gen_tx(rng, rng.randint(0, 4), rng.randint(0, 4), 60)
    objs = [(m.real(), m, False)]
    for step in range(25):
        k = rng.randrange(len(objs))
        o, m, mutable = objs[k]
        r = rng.random()
        if r < 0.45 and mutable:
            op = ('change', change(rng, o, m))
        elif r < 0.62:
            c = mon.call('mutable copy', CMutableTransaction.from_tx, o)
            mon.check(type(c) is CMutableTransaction and c is not o, 'mutable copy')
            mon.check(all(type(x) is CMutableTxIn and type(x.prevout) is CMutableOutPoint for x in c.vin) and
                      all(type(x) is CMutableTxOut for x in c.vout), 'a mutable copy holds something immutable')
            objs.append((c, m.copy(), True))
            op = ('mutable copy', mutable)
        elif r < 0.8:
            c = mon.call('immutable copy', CTransaction.from_tx, o)
            mon.check(type(c) is CTransaction, 'immutable copy')
            mon.check(mutable or c is o, 'an immutable transaction was copied')
            mon.check(all(type(x) is CTxIn and type(x.prevout) is COutPoint for x in c.vin) and all(type(x) is CTxOut for x in c.vout)
                      and type(c.vin) is tuple and type(c.vout) is tuple, 'an immutable copy holds something mutable')
            if mutable:
                objs.append((c, m.copy(), False))
            op = ('immutable copy', mutable)
        elif r < 0.9:
            c = mon.call('CTransaction of the parts', CTransaction, o.vin, o.vout, o.nLockTime, o.nVersion)
            objs.append((c, m.copy(), False))
            op = ('rebuilt', mutable)
        else:
            o.GetHash(), hash(o)
            op = ('hashed', mutable)
        mon.state('step', op)
        if len(objs) > 6:
            objs.pop(rng.randrange(len(objs)))
        for x, mx, mut in objs:
            same(mon, x, mx, 'after %r: %s transaction' % (op, 'mutable' if mut else 'immutable'))
            mon.event('objects compared')
        a, b = rng.choice(objs), rng.choice(objs)
        mon.same(a[0] == b[0], a[1].ser() == b[1].ser(), 'equality')
        mon.same(a[0] != b[0], a[1].ser() != b[1].ser(), 'inequality')
        mon.state('tx', objs[-1][1].ser())


def parts(rng, mon, i):
    """Copies of outpoints, inputs and outputs"""
    for _ in range(8):
        h, n, s, q = btc.gen_vin(rng, 60)
        v, sp = btc.gen_vout(rng, 60)
        io, mo = COutPoint(h, n), CMutableOutPoint(h, n)
        mon.check(COutPoint.from_outpoint(io) is io, 'copy of an immutable outpoint')
        a, b, c = COutPoint.from_outpoint(mo), CMutableOutPoint.from_outpoint(io), CMutableOutPoint.from_outpoint(mo)
        mon.check(type(a) is COutPoint and type(b) is CMutableOutPoint and type(c) is CMutableOutPoint and c is not mo, 'types of copies')
        hash(mo), mo.GetHash()
        n2 = n ^ 1
        mo.n = n2
        mon.check(a.n == n and b.n == n and c.n == n and io.n == n, 'a copy of an outpoint follows the original')
        mon.same(mo.GetHash(), btc.dsha(h + btc.le(n2, 4)), 'hash of a changed outpoint')
        mon.check(hash(mo) == hash(COutPoint(h, n2)) and mo == COutPoint(h, n2) and mo != io, 'a changed outpoint')
        ii = CTxIn(COutPoint(h, n), CScript(s), q)
        mi = mon.call('from_txin', CMutableTxIn.from_txin, ii)
        mon.check(type(mi) is CMutableTxIn and type(mi.prevout) is CMutableOutPoint, 'mutable input')
        mi2 = CMutableTxIn.from_txin(mi)
        im = mon.call('from_txin', CTxIn.from_txin, mi)
        mon.check(type(im) is CTxIn and type(im.prevout) is COutPoint and CTxIn.from_txin(ii) is ii, 'immutable input')
        hash(mi), mi.GetHash()
        mi.prevout.n = n2
        mi.nSequence = q ^ 1
        raw = h + btc.le(n, 4) + btc.compact(len(s)) + s + btc.le(q, 4)
        for x in (ii, im, mi2):
            mon.same(x.serialize(), raw, 'a copy of an input follows the original')
        mon.same(mi.GetHash(), btc.dsha(h + btc.le(n2, 4) + btc.compact(len(s)) + s + btc.le(q ^ 1, 4)), 'hash of a changed input')
        # made directly over something mutable
        mo = CMutableOutPoint(h, n)
        ii = mon.call('CTxIn over a mutable outpoint', CTxIn, mo, CScript(s), q)
        tx = mon.call('CTransaction over it', CTransaction, [ii, mi2], [], 0, 1)
        tx2 = CTransaction.from_tx(CMutableTransaction([ii], [CMutableTxOut(5)]))
        kept = [(x, x.serialize(), x.GetHash(), hash(x)) for x in (ii, tx, tx2)]
        mon.same(kept[0][1], raw, 'an input over a mutable outpoint')
        mo.n, mo.hash = n2, gen.blob(rng, 32)
        mi2.prevout.n = n2
        for x, r0, g0, h0 in kept:
            mon.check(x.serialize() == r0 and x.GetHash() == g0 and hash(x) == h0, 'an immutable %s follows an outpoint' % type(x).__name__)
            y = type(x).deserialize(x.serialize())
            mon.check(x == y and hash(x) == hash(y) and x.GetHash() == y.GetHash(), 'an immutable %s differs from its own copy' % type(x).__name__)
        mon.check(type(ii.prevout) is COutPoint, 'an immutable input holds a mutable outpoint')
        # mutable over immutable, then immutable over that
        mi3, mt3 = CMutableTxIn(COutPoint(h, n), CScript(s), q), CMutableTxOut(v, CScript(sp))
        over = [mon.call('CTransaction over mutable parts', CTransaction, [mi3], [mt3]), CTransaction.from_tx(CMutableTransaction([mi3], [mt3])),
                CTxIn.from_txin(mi3), CTxOut.from_txout(mt3), CBlock(vtx=[CMutableTransaction([mi3], [mt3])])]
        kept = [(x, x.serialize(), x.GetHash(), hash(x)) for x in over]
        if rng.random() < 0.5:
            mi3.nSequence = q ^ 1
        else:
            mi3.prevout = COutPoint(h, n2)
        mt3.nValue = v ^ 1
        for x, r0, g0, h0 in kept:
            mon.check(x.serialize() == r0 and x.GetHash() == g0 and hash(x) == h0, 'an immutable %s follows its mutable parts' % type(x).__name__)
        it = CTxOut(v, CScript(sp))
        mt = CMutableTxOut.from_txout(it)
        mt2, im = CMutableTxOut.from_txout(mt), CTxOut.from_txout(mt)
        mon.check(type(mt) is CMutableTxOut and type(im) is CTxOut and CTxOut.from_txout(it) is it and mt2 is not mt, 'output copies')
        hash(mt), mt.GetHash()
        mt.nValue = v ^ 1
        raw = btc.le(v, 8, True) + btc.compact(len(sp)) + sp
        for x in (it, im, mt2):
            mon.same(x.serialize(), raw, 'a copy of an output follows the original')
        mon.same(mt.GetHash(), btc.dsha(btc.le(v ^ 1, 8, True) + raw[8:]), 'hash of a changed output')
        mon.state('parts', (h, n, v))
        # defaults are not shared
        x, y = CMutableTransaction(), CMutableTransaction()
        x.vin.append(CMutableTxIn())
        x.vout.append(CMutableTxOut())
        x.vin[0].prevout.n = 5
        mon.check(len(y.vin) == 0 and len(y.vout) == 0, 'two new mutable transactions share their inputs')
        mon.check(CMutableTxIn().prevout.n == btc.MASK32 and CTxIn().prevout.n == btc.MASK32, 'new inputs share their outpoint')


FIELDS = {COutPoint: ['hash', 'n'], CTxIn: ['prevout', 'scriptSig', 'nSequence'], CTxOut: ['nValue', 'scriptPubKey'],
          CTransaction: ['nVersion', 'vin', 'vout', 'nLockTime'],
          CBlockHeader: ['nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce'],
          CBlock: ['nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce', 'vtx', 'vMerkleTree']}


def frozen(rng, mon, i):
    m = btc.gen_block(rng, rng.randint(1, 3))
    b = m.real() if rng.random() < 0.5 else CBlock.deserialize(m.ser())
    t = b.vtx[0]
    objs = [b, b.get_header(), t, CTransaction.deserialize(t.serialize())] + list(t.vin[:2]) + list(t.vout[:2]) + [x.prevout for x in t.vin[:2]]
    for o in objs:
        raw, ident = o.serialize(), o.GetHash()
        hh = hash(o) if rng.random() < 0.7 else None
        for f in FIELDS[type(o)]:
            old = getattr(o, f)
            for new in (old, None, 0, b'\x01' * 32, getattr(o, rng.choice(FIELDS[type(o)]))):
                mon.raises('setting %s of %s' % (f, type(o).__name__), AttributeError, setattr, o, f, new)
            mon.raises('deleting %s of %s' % (f, type(o).__name__), AttributeError, delattr, o, f)
            mon.check(getattr(o, f) is old, 'a field changed')
            mon.state('frozen', (type(o).__name__, f))
            if isinstance(old, (list, tuple)):
                mon.check(isinstance(old, tuple), '%s of %s can be changed in place' % (f, type(o).__name__))
        immut.operators(rng, mon, o, [rng.choice(objs), o, 1, (), [t.vin[0]] if t.vin else [], b'x'], type(o).__name__, 3)
        immut.methods(rng, mon, o, [rng.choice(objs), o, 1, 0, b'x'], type(o).__name__, 2, ('__init__',))
        f = rng.choice(FIELDS[type(o)])
        v = getattr(o, f)
        for x in (1, b'x', ()):
            # o.f += ..., which sets it again even where the value cannot change in place
            try:
                v += x
            except TypeError:
                continue
            mon.raises('setting %s of %s to what it became' % (f, type(o).__name__), AttributeError, setattr, o, f, v)
        for f in ('unknown', '_cached_GetHash', '_cached__hash__'):
            mon.raises('setting %s of %s' % (f, type(o).__name__), AttributeError, setattr, o, f, b'\x00' * 32)
        mon.same(o.serialize(), raw, 'serialized after attempts to change it')
        mon.same(o.GetHash(), ident, 'hash after attempts to change it')
        mon.check(hh is None or hash(o) == hh, 'hash() after attempts to change it')
    # scripts are values
    s = b.vtx[0].vin[0].scriptSig if b.vtx[0].vin else CScript(b'\x51')
    mon.check(isinstance(s, bytes), 'a script can be changed in place')
    # a list handed over stays the caller's
    l = [x for x in t.vin]
    t2 = CTransaction(l, list(t.vout), t.nLockTime, t.nVersion)
    raw = t2.serialize()
    l.append(CTxIn())
    mon.same(t2.serialize(), raw, 'a transaction follows the list it was made from')
    txs = [m.txs[0].real_mutable()]
    bl = CBlock(*m.header.args(), vtx=txs)
    raw = bl.serialize()
    change(rng, txs[0], m.txs[0].copy())
    txs.append(txs[0])
    mon.same(bl.serialize(), raw, 'a block follows the transactions it was made from')


def pool(rng):
    """(object, kind, its bytes): parts of two neighbouring blocks, of every kind, mutable and not"""
    m = btc.gen_block(rng, rng.randint(1, 3))
    m2 = btc.MBlock(m.header, [t.copy() for t in m.txs])
    k = rng.randrange(len(m2.txs))
    m2.txs[k] = btc.change_tx(rng, m2.txs[k])
    if rng.random() < 0.3:
        a = list(m.header.args())
        f = rng.randrange(6)
        a[f] = bytes([a[f][0] ^ 1]) + a[f][1:] if f in (1, 2) else a[f] ^ 1
        m2.header = btc.MHeader(*a)
    out = []
    for b in (m, m2):
        out.append((b.real() if rng.random() < 0.7 else CBlock.deserialize(b.ser()), 'block', b.ser()))
        out.append((CBlockHeader(*b.header.args()) if rng.random() < 0.5 else b.real().get_header(), 'header', b.header.ser()))
        t = b.txs[k]
        for o in (t.real(), t.real_mutable()):
            out.append((o, 'tx', t.ser()))
            for j, (h, n, s, q) in list(enumerate(t.vin))[:2]:
                p = h + btc.le(n, 4)
                out.append((o.vin[j], 'in', p + btc.compact(len(s)) + s + btc.le(q, 4)))
                out.append((o.vin[j].prevout, 'outpoint', p))
            for j, (v, s) in list(enumerate(t.vout))[:2]:
                out.append((o.vout[j], 'out', btc.le(v, 8, True) + btc.compact(len(s)) + s))
    return out


def equality(rng, mon, i):
    """Equal, and of one hash, exactly if they have the same fields"""
    objs = pool(rng)
    used = rng.sample(objs, rng.randint(0, len(objs)))
    for o, kind, raw in used:
        rng.choice((o.GetHash, o.serialize, lambda: hash(o), lambda: repr(o)))()
    for _ in range(40):
        (a, ka, ra), (b, kb, rb) = rng.choice(objs), rng.choice(objs)
        if ka != kb and rng.random() < 0.8:
            continue
        want = ka == kb and ra == rb
        what = '%s and %s of %s bytes' % (type(a).__name__, type(b).__name__, 'the same' if ra == rb else 'other')
        mon.same(mon.call('==', lambda: a == b), want, what)
        mon.same(mon.call('!=', lambda: a != b), not want, what + ', different')
        if want:
            mon.check(hash(a) == hash(b), what + ': equal, with other hashes')
        mon.same(b in [a], want, what + ' in a list')
        mon.same(b in {a}, want, what + ' in a set')
        mon.state('equality', (type(a).__name__, type(b).__name__, want, a is b, ra[:8]))
    for o, kind, raw in objs:
        for x in (raw, None, 1, kind, ()):
            mon.check(o != x and not (o == x), '%s equals %r' % (type(o).__name__, x))


SUITES = [Suite('histories', histories, 5600, 25000), Suite('parts', parts, 1600, 6000), Suite('immutable objects', frozen, 2400, 8000),
          Suite('equality', equality, 2400, 8000)]

"""Printed forms are exact"""
import io, re
from fractions import Fraction
import bitcoin.core as core
import bitcoin.core.script as S
from harness.worker import Suite
from harness import gen
from harness.models import btc, script as ms, prooflab, trees, secp
from harness.props import c37
from harness.props.c34 import check58
from bitcoin import messages as M, wallet, base58
from bitcoin.core import (COutPoint, CTxIn, CTxOut, CTransaction, CBlockHeader, CBlock, CMutableTransaction, CMutableOutPoint,
                          CMutableTxIn, CMutableTxOut)
from bitcoin.core.key import CPubKey
from bitcoin.core.script import CScript, CScriptOp
from proofmarshal.bits import Bits
from proofmarshal.serialize import HashTag

RULE = ('random scripts (valid, with unusual pushes, invalid), transactions and their parts (mutable and immutable), headers, blocks, '
        'messages of every kind and protocol version, addresses, secrets, bit arrays, tags, ranges and proofs are printed; what was printed '
        'is evaluated again with exact amounts and compared byte by byte with an independent encoding, and the object is compared '
        'before and after. Non-trivial: distinct printed forms.')
NAMES = {}
for m in (S, core):
    NAMES.update({k: v for k, v in vars(m).items() if not k.startswith('__')})
EXACT = re.compile(r'(?<![\w.\'])(\d+\.\d+)\*COIN')


class Amount:
    """What an amount in coins is worth, exactly"""
    def __init__(self, t):
        self.v = Fraction(t)

    def __mul__(self, n):
        v = self.v * n
        assert v.denominator == 1, v
        return int(v)


def evaluate(mon, what, text, **names):
    env = dict(NAMES, __amount__=Amount, __builtins__={}, **names)
    try:
        return eval(EXACT.sub(r'__amount__("\1")*COIN', text), env)
    except Exception as e:
        mon.fail('%s prints as something that is no expression: %s: %s' % (what, type(e).__name__, e), text[:3000])


def shortest(s):
    """The script with each push in its shortest form by length; None if a push is invalid"""
    ops, ok = ms.parse(s)
    return b''.join(bytes([op]) if d is None else btc.push(d) for op, d, _ in ops) if ok else None


def printed(mon, what, o):
    t = mon.call('repr of ' + what, repr, o)
    mon.check(type(t) is str, 'type of a printed form', t)
    mon.same(repr(o), t, 'printing twice')
    mon.same(mon.call('str of ' + what, lambda: '%s' % (o,)), str(o), 'str')
    return t


def one_script(mon, s):
    o = CScript(s)
    t = printed(mon, 'a script', o)
    mon.same(bytes(o), s, 'a script after printing')
    mon.check(t.startswith('CScript([') and t.endswith('])'), 'printed script', t)
    want = shortest(s)
    if want is not None:
        r = evaluate(mon, 'a script', t)
        mon.check(type(r) is CScript, 'what a printed script evaluates to', t)
        mon.same(bytes(r), want, 'a printed script evaluated', t[:2000], s.hex()[:2000])
        mon.state('script', s)
        return
    # All ops up to the invalid push, and then a notice
    ops, _ = ms.parse(s)
    end = ops[-1][2] + len(one_op(s, ops[-1])) if ops else 0
    valid, rest = s[:end], s[end:]
    head, sep, tail = t.rpartition('<ERROR')
    mon.check(sep == '<ERROR', 'an invalid push is not reported', t)
    head = head[len('CScript(['):]
    data = cut_data(rest)
    if data is not None:
        mon.check(head.endswith("x('%s')..." % data.hex()), 'data of a truncated push', t, data.hex())
        head = head[:-len("x('%s')..." % data.hex())]
    mon.check(head == '' or head.endswith(', '), 'printed script', t)
    r = evaluate(mon, 'a script', 'CScript([%s])' % head)
    mon.same(bytes(r), shortest(valid), 'the part before an invalid push', t[:2000])
    mon.state('invalid script', s)


def one_op(s, op):
    k = s[op[2]]
    if op[1] is None:
        return s[op[2]:op[2] + 1]
    return s[op[2]:op[2] + 1 + {0x4c: 1, 0x4d: 2, 0x4e: 4}.get(k, 0) + len(op[1])]


def cut_data(s):
    """The data there is of a truncated push; None if even its length is missing"""
    w = {0x4c: 1, 0x4d: 2, 0x4e: 4}.get(s[0], 0)
    return s[1 + w:] if len(s) > w else None


def scripts(rng, mon, i):
    if i < 256:
        # every opcode alone and in the middle; every length of a direct push
        one_script(mon, bytes([i]))
        one_script(mon, b'\x51' + bytes([i]) + b'\xac')
        one_script(mon, bytes([i]) + gen.blob(rng, i))
        one_script(mon, btc.push(bytes([i])))
        one_script(mon, btc.push(gen.blob(rng, i)) + b'\x87')
        t = mon.call('repr of an opcode', repr, CScriptOp(i))
        r = evaluate(mon, 'an opcode', t)
        mon.check(type(r) is CScriptOp and int(r) == i, 'an opcode printed and evaluated', t, i)
        mon.same(str(CScriptOp(i)), t, 'str of an opcode')
    for _ in range(12):
        one_script(mon, ms.gen_any(rng))
        one_script(mon, btc.gen_script(rng))


def norm(tx):
    """A transaction with its scripts as printing keeps them; None if one of them has an invalid push"""
    c = tx.copy()
    for k, (h, n, s, q) in enumerate(c.vin):
        s = shortest(s)
        if s is None:
            return None
        c.vin[k] = (h, n, s, q)
    for k, (v, s) in enumerate(c.vout):
        s = shortest(s)
        if s is None:
            return None
        c.vout[k] = (v, s)
    return c


AMOUNTS = [0, 1, 9, 10, 100, 99999999, 100000000, 100000001, 29000000, 57000000, 110000000, 123456789, 2099999997690000, 2099999999999999, 2100000000000000,
           -1, -100000000, 2**63 - 1, -2**63, 2**53 + 1, 100000010, 1000000000, 4503599627370497]


def gen_tx(rng):
    tx = btc.gen_tx(rng, rng.choice((0, 1, 2, 3)), rng.choice((0, 1, 2, 3)), 120)
    for k, (v, s) in enumerate(tx.vout):
        r = rng.random()
        if r < 0.3:
            v = rng.choice(AMOUNTS)
        elif r < 0.6:
            v = rng.randrange(0, 10**9) * 10**rng.randrange(0, 8)
        elif r < 0.7:
            v = rng.randrange(21 * 10**14)
        if rng.random() < 0.7:
            s = ms.gen_any(rng, rng.randint(0, 5))
        tx.vout[k] = (v, s)
    for k, (h, n, s, q) in enumerate(tx.vin):
        if rng.random() < 0.7:
            s = ms.gen_any(rng, rng.randint(0, 5))
        r = rng.random()
        if r < 0.1:
            h, n = bytes(32), btc.MASK32
        elif r < 0.2:
            h = bytes(32)
        elif r < 0.3:
            n = btc.MASK32
        elif r < 0.4:
            h = gen.blob(rng, 8) + bytes(24)
        tx.vin[k] = (h, n, s, q)
    return tx


def transactions(rng, mon, i):
    for _ in range(3):
        tx = gen_tx(rng)
        raw = tx.ser()
        want = norm(tx)
        for o in (tx.real(), tx.real_mutable(), CTransaction.deserialize(raw), CMutableTransaction.from_tx(tx.real())):
            t = printed(mon, 'a transaction', o)
            mon.same(o.serialize(), raw, 'a transaction after printing')
            if want is None:
                mon.check('<ERROR' in t, 'an invalid push is not reported', t)
            else:
                r = evaluate(mon, 'a transaction', t)
                mon.check(isinstance(r, CTransaction), 'what a printed transaction evaluates to', t)
                mon.same(r.serialize(), want.ser(), 'a printed transaction evaluated', t[:2000])
                mon.state('transaction', raw)
            # its parts
            for k, x in enumerate(o.vin):
                h, n, s, q = tx.vin[k]
                p = evaluate(mon, 'an outpoint', printed(mon, 'an outpoint', x.prevout))
                mon.check(isinstance(p, COutPoint), 'what a printed outpoint evaluates to', p)
                mon.same((bytes(p.hash), p.n), (h, n), 'a printed outpoint evaluated')
                t = printed(mon, 'an input', x)
                if shortest(s) is not None:
                    p = evaluate(mon, 'an input', t)
                    mon.same((bytes(p.prevout.hash), p.prevout.n, bytes(p.scriptSig), p.nSequence), (h, n, shortest(s), q), 'a printed input evaluated', t)
            for k, x in enumerate(o.vout):
                v, s = tx.vout[k]
                t = printed(mon, 'an output', x)
                if shortest(s) is not None:
                    p = evaluate(mon, 'an output', t)
                    mon.same((p.nValue, bytes(p.scriptPubKey)), (v, shortest(s)), 'a printed output evaluated', t)
                    mon.state('output', (v, s))
            mon.same(o.serialize(), raw, 'a transaction after printing its parts')
    # changed after it was printed
    tx = gen_tx(rng)
    o = tx.real_mutable()
    repr(o)
    o.nLockTime = tx.locktime = gen.int_in(rng, 0, btc.MASK32)
    o.nVersion = tx.version = gen.int_in(rng, -2**31, 2**31 - 1)
    if tx.vout:
        v = gen.int_in(rng, 0, 21 * 10**14)
        repr(o.vout[0])
        o.vout[0].nValue = v
        tx.vout[0] = (v, tx.vout[0][1])
    if tx.vin:
        h, n, s, q = tx.vin[0]
        repr(o.vin[0]), repr(o.vin[0].prevout)
        n = o.vin[0].prevout.n = gen.int_in(rng, 0, btc.MASK32)
        q = o.vin[0].nSequence = gen.int_in(rng, 0, btc.MASK32)
        tx.vin[0] = (h, n, s, q)
    want = norm(tx)
    if want is not None:
        mon.same(evaluate(mon, 'a changed transaction', printed(mon, 'a changed transaction', o)).serialize(), want.ser(), 'printed after a change')


def blocks(rng, mon, i):
    for _ in range(4):
        h = btc.gen_header(rng)
        o = CBlockHeader.deserialize(h.ser())
        t = printed(mon, 'a header', o)
        r = evaluate(mon, 'a header', t)
        mon.check(isinstance(r, CBlockHeader), 'what a printed header evaluates to', t)
        mon.same(r.serialize(), h.ser(), 'a printed header evaluated', t)
        mon.same(o.serialize(), h.ser(), 'a header after printing')
        mon.state('header', h.ser())
    b = btc.gen_block(rng, rng.randint(1, 5))
    raw = b.ser()
    o = CBlock.deserialize(raw)
    t = printed(mon, 'a block', o)
    mon.same(o.serialize(), raw, 'a block after printing')
    r = evaluate(mon, 'a block', t)
    mon.same(r.get_header().serialize(), raw[:80], 'the header of a printed block evaluated', t)
    mon.state('block', raw)


def messages(rng, mon, i):
    """Whatever a peer sends can be printed, and printing has no effect"""
    for name in c37.NAMES:
        _, cls, body, make, check = c37.gen_msg(rng, name)
        raw = c37.frame(c37.NETS[0][1], name, body)
        o = mon.call('reading ' + name.decode(), M.MsgSerializable.stream_deserialize, io.BytesIO(raw))
        t = printed(mon, 'a message read (%s)' % name.decode(), o)
        mon.check(t.startswith(cls.__name__ + '('), 'printed message', t)
        mon.same(o.to_bytes(), raw, 'a message after printing')
        check(mon, o)
        again = M.MsgSerializable.stream_deserialize(io.BytesIO(raw))
        mon.same(repr(again), t, 'two equal messages printed')
        if name in (b'ping', b'pong', b'verack', b'getaddr', b'mempool'):
            n = re.sub(r'^\w+\(|\)$', '', t)
            mon.same(int(n, 0) if n else None, int.from_bytes(body, 'little') if body else None, 'number of a printed message', t)
        if name in (b'inv', b'getdata'):
            want = [x.hash.hex() for x in o.inv]
            mon.eq(re.findall(r"hash=b'([0-9a-f]{64})'", t), want, 'hashes of a printed message', t)
        if name in (b'getblocks', b'getheaders'):
            mon.check(o.hashstop.hex() in t, 'last hash of a printed message', t)
        if name == b'addr':
            mon.eq(re.findall(r'nTime=(\d+) nServices=(\d+) ip=([\d.]+) port=(\d+)', t), [(str(a.nTime), str(a.nServices), a.ip, str(a.port)) for a in o.addrs],
                   'addresses of a printed message', t)
        if name == b'tx':
            tx = norm(btc.parse_tx(body)[0])
            if tx is not None:
                r = evaluate(mon, 'a transaction in a message', t[len('msg_tx(tx='):-1])
                mon.same(r.serialize(), tx.ser(), 'a transaction printed in a message')
        mon.state('message', t[:2000])
    v = rng.choice((gen.int_in(rng, -2**31, 105), gen.int_in(rng, 106, 208), gen.int_in(rng, 209, 2**31 - 1), 10300, 105, 106, 208, 209))
    time, services, nonce = gen.int_in(rng, -2**63, 2**63 - 1), gen.int_in(rng, 0, 2**64 - 1), gen.int_in(rng, 0, 2**64 - 1)
    a, b = c37.MAddr(rng), c37.MAddr(rng)
    sub = gen.data(rng, 100, 20)
    body = btc.le(v, 4, True) + btc.le(services, 8) + btc.le(time, 8, True) + a.ser(False)
    if v >= 106:
        body += b.ser(False) + btc.le(nonce, 8) + btc.compact(len(sub)) + sub
    if v >= 209:
        body += btc.le(7, 4)
    o = mon.call('reading a version message', M.MsgSerializable.stream_deserialize, io.BytesIO(c37.frame(c37.NETS[0][1], b'version', body)))
    t = printed(mon, 'a version message of protocol %d' % v, o)
    mon.check('nServices=%d ' % services in t, 'services of a printed version message', t)
    if v >= 106:
        mon.eq(re.findall(r'nNonce=(0[xX][0-9a-fA-F]+)', t)[-1:], ['0x%016X' % nonce], 'nonce of a printed version message', t)
    mon.state('version message', body)


def addresses(rng, mon, i):
    env = dict(vars(wallet), CBase58Data=base58.CBase58Data)
    for _ in range(6):
        h = gen.blob(rng, 20)
        for a, cls in ((wallet.CBitcoinAddress.from_scriptPubKey(CScript(b'\x76\xa9\x14' + h + b'\x88\xac')), wallet.P2PKHBitcoinAddress),
                       (wallet.CBitcoinAddress.from_scriptPubKey(CScript(b'\xa9\x14' + h + b'\x87')), wallet.P2SHBitcoinAddress)):
            t = printed(mon, 'an address', a)
            s = check58(bytes([0 if cls is wallet.P2PKHBitcoinAddress else 5]) + h)
            mon.same(str(a), s, 'an address as text')
            r = evaluate(mon, 'an address', t, **{k: v for k, v in env.items() if not k.startswith('__')})
            mon.check(type(r) is cls and bytes(r) == h and str(r) == s, 'an address printed and evaluated', t)
            mon.same(a.to_bytes(), h, 'an address after printing')
            mon.state('address', t)
        v, d = rng.randrange(256), gen.data(rng, 60, 25)
        b = base58.CBase58Data.from_bytes(d, v)
        t = printed(mon, 'base58 data', b)
        mon.same(str(b), check58(bytes([v]) + d), 'base58 data as text')
        r = evaluate(mon, 'base58 data', t, CBase58Data=base58.CBase58Data)
        mon.check(type(r) is base58.CBase58Data and r.nVersion == v and r.to_bytes() == d, 'base58 data printed and evaluated', t)
        mon.state('base58', t)
    k = gen.int_in(rng, 1, secp.N - 1).to_bytes(32, 'big')
    comp = rng.random() < 0.5
    s = wallet.CBitcoinSecret.from_secret_bytes(k, comp)
    r = evaluate(mon, 'a secret', printed(mon, 'a secret', s), CBitcoinSecret=wallet.CBitcoinSecret)
    mon.check(r.to_bytes() == s.to_bytes() and r.is_compressed == comp and bytes(r.pub) == bytes(s.pub), 'a secret printed and evaluated')
    p = secp.encode(secp.point(k), 'c' if comp else 'u')
    r = evaluate(mon, 'a public key', printed(mon, 'a public key', s.pub), CPubKey=CPubKey)
    mon.check(bytes(r) == p, 'a public key printed and evaluated')


def marshal(rng, mon, i):
    """Bit arrays, tags, ranges and proofs"""
    n = i if i < 80 else gen.size(rng, 300, 20)
    bits = [rng.random() < 0.5 for _ in range(n)]
    b = Bits(bits)
    if rng.random() < 0.4:
        buf = bytearray(gen.blob(rng, (n + 7) // 8))
        b = Bits.from_bytes(bytes(buf), n)
        bits = [bool(buf[k // 8] >> (k % 8) & 1) for k in range(n)]
        if list(b) != bits:
            bits = list(b)          # the order of bits in a byte is the business of another property
    t = printed(mon, 'a bit array', b)
    r = evaluate(mon, 'a bit array', t, Bits=Bits)
    mon.check(type(r) is Bits and len(r) == n and list(r) == bits, 'a bit array printed and evaluated', t)
    mon.state('bits', t)
    u = prooflab.rand_uuid(rng)
    tag = HashTag(u)
    t = printed(mon, 'a tag', tag)
    r = evaluate(mon, 'a tag', t, HashTag=HashTag)
    mon.check(type(r) is HashTag and bytes(r) == bytes(tag) and str(tag) == u.lower(), 'a tag printed and evaluated', t, u)
    d = tag.derive(gen.data(rng, 40, 16))
    mon.check(bytes(evaluate(mon, 'a derived tag', printed(mon, 'a derived tag', d), HashTag=HashTag)) == bytes(d), 'a derived tag printed and evaluated')
    # proofs print their commitment, whole, pruned or read back
    pool = prooflab.make_pool(rng, 3)
    for schema in pool:
        node = prooflab.make_node(rng, schema)
        o = node.build()
        t = printed(mon, 'a proof', o)
        mon.check(node.hash.hex() in t and type(o).__qualname__ in t, 'a printed proof', t, node.hash.hex())
        mon.same(o.serialize(), node.ser(), 'a proof after printing')
        p = o.prune()
        mon.same(printed(mon, 'a pruned proof', p), t, 'a pruned proof printed')
        mon.same(p.serialize(), node.ser('pruned'), 'a pruned proof after printing')
        q = type(o).deserialize(p.serialize()) if not isinstance(schema, prooflab.VarSchema) else schema.cls.deserialize(p.serialize())
        mon.same(printed(mon, 'a pruned proof read back', q), t, 'a pruned proof read back printed')
        mon.state('proof', t)
    # ranges
    cls, kind, model = trees.make_mmr_class(rng, trees.VUInt(trees.UInt64, 64) if i % 2 else None)
    items = tuple(kind.make(rng) for _ in range(gen.size(rng, 60, 8)))
    m = cls([kind.real(v) for v in items])
    t = printed(mon, 'a range', m)
    if type(kind) is trees.VUInt:
        mon.check(t.endswith('(%r)' % (list(items),)), 'a range of integers printed', t)
    mon.same(bytes(m.hash), model.hash(items), 'a range after printing')
    mon.same(m.serialize(), model.ser(items), 'a range after printing')
    p = m.prune()
    t = printed(mon, 'a pruned range', p)
    mon.check(p.serialize() == m.prune().serialize(), 'a pruned range after printing', t)
    back = cls.deserialize(p.serialize())
    mon.check(model.hash(items).hex() in printed(mon, 'a range read back', back), 'a pruned range printed')
    mon.state('range', t)


SUITES = [Suite('scripts', scripts, 6000, 60000), Suite('transactions', transactions, 2500, 25000), Suite('blocks', blocks, 1500, 15000),
          Suite('messages', messages, 1200, 12000), Suite('addresses', addresses, 500, 5000), Suite('marshal', marshal, 1500, 15000)]

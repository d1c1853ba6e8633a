"""Strict decoding: a byte string is read back only if it is the encoding of what is read"""
import io
import tempfile

from harness.worker import Suite
from harness import gen
from harness.models import btc, pm, prooflab
from harness.props import c03
from proofchains.core.bitcoin import COutPointSerializer, CTransactionSerializer, TxProof, OutPointProof, TxInProof, TxOutProof
from proofchains.core.uniquebits.singleuseseal import BitcoinSingleUseSeal, BitcoinSealWitness
from proofmarshal.bits import BitsSerializer
from proofmarshal.proof import Proof
from proofmarshal.serialize import DeserializationError, TruncationError, BytesDeserializationContext, StreamDeserializationContext

RULE = ('valid, truncated, extended, damaged, spliced and random byte strings given to the decoder of random types '
        '(primitives, bit arrays, proof classes, variant families, unions): each must be refused with the documented '
        'error or read as a value whose encoding is exactly those bytes; the same for transactions and outpoints within '
        'proofs, with sizes encoded longer than needed; the same from files, with lengths that no file has. Non-trivial: distinct (type, bytes) decided.')


def decide(mon, ser, reenc, buf, what):
    st, v = mon.outcome(what, ser.deserialize, buf, errors=DeserializationError)
    if st == 'ok':
        mon.event('accepted')
        mon.same(mon.call('re-encode', reenc, v), buf, what + ': accepted, but not the encoding of the result')
    else:
        mon.event('rejected')
        mon.check(str(v) is not None, 'error text')
    return st, v


def hostile_varuint(rng):
    r = rng.random()
    if r < 0.3:                                    # non-minimal
        v = pm.varuint(gen.int_in(rng, 0, 2**70))
        return v[:-1] + bytes([v[-1] | 0x80]) + b'\x80' * rng.choice((0, 0, 1, 3, 20)) + b'\x00'
    if r < 0.6:
        return pm.varuint(gen.int_in(rng, 0, 2**rng.choice((8, 16, 33, 65, 200))))
    if r < 0.8:
        return b'\xff' * rng.randint(1, 20) + bytes([rng.randrange(256)])
    if r < 0.85:                                   # longer than Python prints in decimal
        k = rng.choice((1000, 2040, 2041, 2042, 2050, 2500, 6000))
        return rng.choice((b'\xff' * k, b'\x80' * k, gen.blob(rng, k).translate(HIGH))) + rng.choice((b'\x01', b'\x7f', b'\x00', b''))
    return bytes(rng.choice((0, 1, 0x7f, 0x80, 0x81, 0xff)) for _ in range(rng.randint(1, 6)))


HIGH = bytes(0x80 | b for b in range(256))


def primitives(rng, mon, i):
    for _ in range(15):
        if rng.random() < 0.15:
            ser, t = BitsSerializer, None
            v = tuple(rng.randrange(2) for _ in range(gen.size(rng, 300, 20)))
            enc = pm.enc_bits(v)
        else:
            ser, t = c03.make_type(rng)
            enc = c03.encode(t, c03.good_value(rng, t))
        what = 'decode %s' % (t,)
        r = rng.random()
        if r < 0.3:
            buf = gen.mutate(rng, enc)
        elif r < 0.5:
            k = pm.read_varuint(enc, 0)
            buf = hostile_varuint(rng) + (enc[k[1]:] if k else b'')
        elif r < 0.6:
            buf = gen.data(rng, 60, 12)
        elif r < 0.8:
            if enc:
                buf = enc[:rng.choice((0, len(enc) - 1, rng.randrange(len(enc))))]
                mon.raises('truncated ' + what, TruncationError, ser.deserialize, buf)
            continue
        else:
            buf = enc + gen.blob(rng, rng.choice((1, 1, 2, 9)))
            mon.raises('junk after ' + what, DeserializationError, ser.deserialize, buf)
            continue
        st, v = decide(mon, ser, ser.serialize, buf, what)
        if st == 'ok':
            mon.call('check_instance of a decoded value', ser.check_instance, v)
            if t is not None:
                mon.check(c03.verdict(t, v) is None, 'decoded value is outside the declared type', t, v)
                mon.same(c03.encode(t, v), buf, 'decoded from something that is not its encoding')
        elif t is not None:
            # refused: it must not be a valid encoding
            mon.check(not is_valid(t, buf), 'valid encoding refused', t, buf)
        mon.state('decided', repr(t).encode() + buf)


def is_valid(t, buf):
    if t[0] == 'bool':
        return buf in (b'\x00', b'\xff')
    if t[0] == 'fixed':
        return len(buf) == t[1]
    r = pm.read_varuint(buf, 0)
    if r is None:
        return False
    if t[0] == 'uint':
        return r[1] == len(buf) and r[0] < 2**t[1]
    return t[1] <= r[0] <= t[2] and len(buf) == r[1] + r[0]


def proofs(rng, mon, i):
    pool = prooflab.make_pool(rng)
    for _ in range(4):
        node = prooflab.make_node(rng, rng.choice(pool))
        top = node.schema.base.cls if node.schema.base is not None else node.schema.cls
        view = rng.choice(('full', 'pruned', prooflab.random_view(rng, node, 0.8)))
        enc = node.ser(view)
        v = mon.call('decode', top.deserialize, enc)
        mon.same(v.serialize(), enc, 'valid proof re-encoded')
        if len(enc) < 6000:
            for k in {0, min(1, len(enc) - 1), len(enc) - 1, rng.randrange(len(enc)), rng.randrange(len(enc))}:
                mon.raises('proof truncated to %d of %d bytes' % (k, len(enc)), TruncationError, top.deserialize, enc[:k])
        mon.raises('junk after a proof', DeserializationError, top.deserialize, enc + gen.blob(rng, rng.choice((1, 2, 33))))
        ctx = BytesDeserializationContext(enc + b'tail')
        mon.call('decode from a stream', top.ctx_deserialize, ctx)
        mon.eq(ctx.fd.tell(), len(enc), 'bytes consumed from a stream')
        for _ in range(6):
            bad = gen.mutate(rng, enc)
            if len(bad) > 20000:
                continue
            st, v = decide(mon, top, lambda p: p.serialize(), bad, 'decode a damaged proof')
            if st == 'ok':
                mon.check(isinstance(v, Proof), 'decoded a non-proof', type(v))
                if bad != enc:
                    # data hashes are taken on trust, everything that is there is hashed
                    mon.call('hash of a damaged proof', lambda: v.hash)
            mon.state('decided', bad)


def others(rng, n):
    """Numbers outside a family of n members"""
    c = rng.randrange(n)
    return [k for k in {rng.randrange(n, 400), 127 + c, 128 + c, 129 + c, 253 + c, 256 + c, 2**rng.randrange(1, 80) + c,
                        2**rng.randrange(8, 80) - 1 - c, n + c} if k >= n]


def selectors(rng, mon, i):
    """Variant and union numbers outside the family, booleans that are neither"""
    pool = prooflab.make_pool(rng)
    for s in pool:
        if isinstance(s, prooflab.VarSchema):
            n = len(s.variants)
            for k in (n, n + 1, 127, 128, gen.int_in(rng, n, 2**70), 2**rng.choice((62, 63, 64, 300, 14300, 20000))):
                if k < n:
                    continue
                for head in (b'\x00', b'\xff'):
                    mon.raises('variant 0x%x of %d' % (k, n), DeserializationError, s.cls.deserialize,
                               head + pm.varuint(k) + gen.blob(rng, 64))
                    mon.event('selector')
            # what follows would be fine after another number
            good = prooflab.make_node(rng, rng.choice(s.variants)).ser()
            for k in others(rng, n):
                mon.raises('variant 0x%x of %d' % (k, n), DeserializationError, s.cls.deserialize, good[:1] + pm.varuint(k) + good[2:])
                mon.event('selector')
        for b in (1, 2, 127, 128, 254, rng.randint(1, 254)):
            cls = s.cls
            mon.raises('pruned flag %d' % b, DeserializationError, cls.deserialize, bytes([b]) + gen.blob(rng, 64))
        if isinstance(s, prooflab.Schema):
            for n, t in s.attrs:
                if t[0] == 'union':
                    u = t[2]
                    for k in (len(t[1]), len(t[1]) + 1, gen.int_in(rng, len(t[1]), 2**66), 2**rng.choice((63, 64, 14300, 20000))):
                        if k >= len(t[1]):
                            mon.raises('union member 0x%x of %d' % (k, len(t[1])), DeserializationError, u.deserialize,
                                       pm.varuint(k) + b'\xff' + gen.blob(rng, 64))
                    kid = prooflab.make_node(rng, rng.choice(t[1]))
                    enc = pm.varuint(t[1].index(kid.schema)) + kid.ser()
                    v = mon.call('union decode', u.deserialize, enc)
                    mon.same(u.serialize(v), enc, 'union re-encoded')
                    for k in others(rng, len(t[1])):
                        mon.raises('union member 0x%x of %d before a proof' % (k, len(t[1])), DeserializationError, u.deserialize,
                                   pm.varuint(k) + kid.ser())
                        mon.event('selector')
                    mon.state('decided', enc)


def long_form(v, n):
    """A compact size of n bytes more than it needs"""
    return bytes([{2: 0xfd, 4: 0xfe, 8: 0xff}[n]]) + btc.le(v, n)


def tx_bytes(rng):
    """Bytes of a transaction, many of them not the ones it has"""
    m = btc.gen_tx(rng, rng.choice((0, 1, 2)), rng.choice((0, 1, 2)), 20)
    raw = m.ser()
    r = rng.randrange(8)
    if r < 2:
        return raw
    if r == 2:
        return gen.mutate(rng, raw)
    if r == 3:
        return raw + gen.blob(rng, rng.choice((1, 2, 4)))
    if r == 4:
        return raw[:rng.randrange(len(raw))]
    # one of its sizes in a longer form
    sizes = [lambda v, k=k: btc.compact(v) for k in range(1 + len(m.vin) + 1 + len(m.vout))]
    sizes[rng.randrange(len(sizes))] = lambda v: long_form(v, rng.choice((2, 4, 8)) if v < 0xfd else 4)
    it = iter(sizes)
    out = btc.le(m.version, 4, True) + next(it)(len(m.vin))
    for h, n, sc, q in m.vin:
        out += h + btc.le(n, 4) + next(it)(len(sc)) + sc + btc.le(q, 4)
    out += next(it)(len(m.vout))
    for v, sc in m.vout:
        out += btc.le(v, 8, True) + next(it)(len(sc)) + sc
    return out + btc.le(m.locktime, 4)


def good_tx(raw):
    try:
        r = btc.Reader(raw)
        m = r.tx()
        return r.pos == len(raw) and m.ser() == raw
    except Exception:
        return False


def bitcoin_parts(rng, mon, i):
    """Transactions and outpoints inside proofs"""
    for _ in range(8):
        raw = tx_bytes(rng)
        op = gen.blob(rng, rng.choice((36, 36, 36, 35, 37, 0, 72)))
        tx_ok, op_ok = good_tx(raw), len(op) == 36
        tx, opb = pm.varuint(len(raw)) + raw, pm.varuint(len(op)) + op
        seal = b'\x00' + opb + gen.blob(rng, 16)
        k = gen.int_in(rng, 0, 2**32 - 1)
        ptx = b'\x00' + tx
        good = b'\x00' + pm.varuint(1) + b'\xff' + gen.blob(rng, 32)
        for ser, buf, ok in (
                (CTransactionSerializer, tx, tx_ok), (COutPointSerializer, opb, op_ok), (TxProof, ptx, tx_ok),
                (OutPointProof, b'\x00' + ptx + pm.varuint(k), tx_ok), (TxInProof, b'\x00' + pm.varuint(k) + ptx, tx_ok),
                (TxOutProof, b'\x00' + pm.varuint(k) + ptx, tx_ok), (BitcoinSingleUseSeal, seal, op_ok),
                (BitcoinSealWitness, b'\x00' + seal + b'\x00' + pm.varuint(k) + ptx + good, tx_ok and op_ok),
                (BitcoinSealWitness, b'\x00' + seal + good + b'\x00' + pm.varuint(k) + ptx, tx_ok and op_ok)):
            what = 'decode ' + ser.__name__
            st, v = decide(mon, ser, ser.serialize, buf, what)
            mon.check((st == 'ok') == ok, what + (': valid encoding refused' if ok else ': accepted'), buf)
            if buf:
                mon.raises('truncated ' + what, DeserializationError, ser.deserialize, buf[:rng.randrange(len(buf))])
            mon.raises('junk after ' + what, DeserializationError, ser.deserialize, buf + gen.blob(rng, rng.choice((1, 5))))
            mon.state('decided', (ser.__name__, ok, buf))


def files(rng, mon, i):
    """The same from files on disk, buffered and not, where lengths that no file has are met before the end of the data"""
    pool = prooflab.make_pool(rng)
    with tempfile.TemporaryFile(buffering=0) as fd:
        for _ in range(8):
            r = rng.random()
            if r < 0.6:
                ser, t = c03.make_type(rng)
                enc = c03.encode(t, c03.good_value(rng, t))
                reenc = ser.serialize
            elif r < 0.7:
                ser, enc = rng.choice(((CTransactionSerializer, btc.gen_tx(rng).ser()), (COutPointSerializer, gen.blob(rng, 36))))
                enc, t, reenc = pm.varuint(len(enc)) + enc, ('var', 0, 0), ser.serialize
            else:
                node = prooflab.make_node(rng, rng.choice(pool))
                ser = node.schema.base.cls if node.schema.base is not None else node.schema.cls
                enc, t, reenc = node.ser(rng.choice(('full', 'pruned'))), ('proof',), lambda p: p.serialize()
            r = rng.random()
            if r < 0.3:
                buf = enc
            elif r < 0.5:
                buf = gen.mutate(rng, enc)
            elif r < 0.6 and enc:
                buf = enc[:rng.randrange(len(enc))]
            else:                                  # a length that no file has
                k = pm.read_varuint(enc, 0) if t[0] == 'var' else None
                n = rng.choice((len(enc) + 1, 2**31, 2**32, 2**40, 2**48, 2**56, 2**62, 2**63 - 40, 2**63 - 1, 2**63, 2**64, 2**200, 2**14300))
                if t[0] not in ('var', 'uint', 'proof') or (n < 2**48 and rng.random() < 0.9):
                    continue
                buf = (b'\0' if t[0] == 'proof' else b'') + pm.varuint(n + rng.randrange(3)) + (enc[k[1]:] if k else enc)
            fd.seek(0)
            fd.truncate()
            fd.write(buf)
            st, v = mon.outcome('decode from memory', ser.ctx_deserialize, BytesDeserializationContext(buf), errors=DeserializationError)
            for how, f in (('buffered', io.BufferedReader(fd)), ('small buffer', io.BufferedReader(fd, rng.choice((1, 7, 64)))), ('raw', fd)):
                f.seek(0)
                st2, v2 = mon.outcome('decode from a file (%s)' % how, ser.ctx_deserialize, StreamDeserializationContext(f), errors=DeserializationError)
                mon.eq(st2, st, 'same decision from a file (%s)' % how)
                mon.event('file read')
                if st == 'ok':
                    used = reenc(v2)
                    mon.same(used, buf[:len(used)], 'decoded from a file (%s)' % how)
                    mon.eq(f.tell(), len(used), 'bytes consumed from a file (%s)' % how)
                else:
                    mon.eq(type(v2), type(v), 'same error from a file (%s)' % how)
                if f is not fd:
                    f.detach()
            mon.state('decided', (repr(t), buf))


SUITES = [Suite('primitives', primitives, 25000, 80000), Suite('proofs', proofs, 9000, 25000), Suite('selectors', selectors, 4000, 10000),
          Suite('bitcoin parts', bitcoin_parts, 4000, 16000),
          Suite('files', files, 3000, 12000)]

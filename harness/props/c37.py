"""Peer-to-peer messages"""
import contextlib, io, socket, struct, threading, time
import bitcoin
from harness.worker import Suite
from harness import gen
from harness.models import btc
from harness.props import c20
from bitcoin import messages as M
from bitcoin.core import CTransaction, CBlock
from bitcoin.core.serialize import SerializationError, SerializationTruncationError
from bitcoin.net import CAddress, CInv, CBlockLocator, CAlert, CUnsignedAlert

RULE = ('random messages of every kind on every network: frames written and read against an independent encoder, streams of several '
        'messages read over files and sockets that deliver in pieces, and damaged frames (every header field, every checksum bit, '
        'cuts at every length, wrong network), default messages and old address forms against the protocol constants. Non-trivial: distinct frames, streams and damages.')
NETS = [('mainnet', b'\xf9\xbe\xb4\xd9', bitcoin.MainParams), ('testnet', b'\x0b\x11\x09\x07', bitcoin.TestNetParams),
        ('regtest', b'\xfa\xbf\xb5\xda', bitcoin.RegTestParams)]
le = btc.le


def frame(magic, command, body):
    return magic + command + bytes(12 - len(command)) + le(len(body), 4) + btc.dsha(body)[:4] + body


def count(rng, hi=40):
    return rng.choice((0, 1, 2, 3, gen.size(rng, hi, 5)))


# each kind: (body, maker of the real message, check of a message read)
class MAddr:
    def __init__(self, rng):
        self.time, self.services = gen.int_in(rng, 0, btc.MASK32), gen.int_in(rng, 0, 2**64 - 1)
        self.reserved = rng.choice((bytes(10) + b'\xff\xff', gen.blob(rng, 12)))
        self.ip, self.port = gen.blob(rng, 4), gen.int_in(rng, 0, 65535)

    def ser(self, timed=True):
        return (le(self.time, 4) if timed else b'') + le(self.services, 8) + self.reserved + self.ip + struct.pack('>H', self.port)

    def text(self):
        return '.'.join(str(x) for x in self.ip)

    def real(self):
        a = CAddress()
        a.nTime, a.nServices, a.pchReserved, a.ip, a.port = self.time, self.services, self.reserved, self.text(), self.port
        return a

    def check(self, mon, a, timed=True):
        mon.check(type(a) is CAddress, 'type of an address', a)
        mon.eq((a.nServices, a.pchReserved, a.ip, a.port), (self.services, self.reserved, self.text(), self.port), 'address')
        if timed:
            mon.eq(a.nTime, self.time, 'time of an address')


def m_version(rng):
    v = rng.choice((60002, 70002, 209, 31402, gen.int_in(rng, 209, 2**31 - 1)))
    if v == 10300:
        v = 10301
    to, fr = MAddr(rng), MAddr(rng)
    services, time, nonce = gen.int_in(rng, 0, 2**64 - 1), gen.int_in(rng, -2**63, 2**63 - 1), gen.int_in(rng, 0, 2**64 - 1)
    sub, height = gen.data(rng, 600, 25), gen.int_in(rng, -2**31, 2**31 - 1)
    body = le(v, 4, True) + le(services, 8) + le(time, 8, True) + to.ser(False) + fr.ser(False) + le(nonce, 8) + btc.compact(len(sub)) + sub + le(height, 4, True)

    def make():
        m = M.msg_version()
        m.nVersion, m.nServices, m.nTime, m.addrTo, m.addrFrom, m.nNonce, m.strSubVer, m.nStartingHeight = \
            v, services, time, to.real(), fr.real(), nonce, sub, height
        return m

    def check(mon, m):
        mon.eq((m.nVersion, m.nServices, m.nTime, m.nNonce, m.strSubVer, m.nStartingHeight), (v, services, time, nonce, sub, height), 'version fields')
        to.check(mon, m.addrTo, False)
        fr.check(mon, m.addrFrom, False)
    return body, make, check


def m_addr(rng):
    l = [MAddr(rng) for _ in range(count(rng, 300))]

    def make():
        m = M.msg_addr()
        m.addrs = [a.real() for a in l]
        return m

    def check(mon, m):
        mon.eq(len(m.addrs), len(l), 'number of addresses')
        for a, r in zip(l, m.addrs):
            a.check(mon, r)
    return btc.compact(len(l)) + b''.join(a.ser() for a in l), make, check


def m_alert(rng):
    msg, sig = gen.data(rng, 2000, 80), gen.data(rng, 200, 70)

    def make():
        m = M.msg_alert()
        m.alert.vchMsg, m.alert.vchSig = msg, sig
        return m

    def check(mon, m):
        mon.check(type(m.alert) is CAlert, 'type of the alert')
        mon.same(m.alert.vchMsg, msg, 'alert')
        mon.same(m.alert.vchSig, sig, 'alert signature')
    return btc.compact(len(msg)) + msg + btc.compact(len(sig)) + sig, make, check


def inv_like(cls):
    def build(rng):
        l = [(rng.choice((0, 1, 2, 3, gen.int_in(rng, -2**31, 2**31 - 1))), gen.blob(rng, 32)) for _ in range(count(rng, 300))]

        def make():
            m = cls()
            for t, h in l:
                c = CInv()
                c.type, c.hash = t, h
                m.inv.append(c)
            return m

        def check(mon, m):
            mon.eq([(c.type, c.hash) for c in m.inv], l, 'inventory')
        return btc.compact(len(l)) + b''.join(le(t, 4, True) + h for t, h in l), make, check
    return build


def locator_like(cls):
    def build(rng):
        v = rng.choice((60002, gen.int_in(rng, -2**31, 2**31 - 1)))
        have = [gen.blob(rng, 32) for _ in range(count(rng, 300))]
        stop = rng.choice((bytes(32), gen.blob(rng, 32)))

        def make():
            m = cls()
            m.locator.nVersion, m.locator.vHave, m.hashstop = v, list(have), stop
            return m

        def check(mon, m):
            mon.check(type(m.locator) is CBlockLocator, 'type of the locator')
            mon.eq((m.locator.nVersion, list(m.locator.vHave), m.hashstop), (v, have, stop), 'locator')
        return le(v, 4, True) + btc.compact(len(have)) + b''.join(have) + stop, make, check
    return build


def m_headers(rng):
    l = [btc.gen_header(rng) for _ in range(count(rng, 200))]

    def make():
        m = M.msg_headers()
        m.headers = [CBlock(*h.args(), vtx=()) for h in l]
        return m

    def check(mon, m):
        mon.eq(len(m.headers), len(l), 'number of headers')
        for h, r in zip(l, m.headers):
            c20.fields_header(mon, r, h)
            mon.eq(len(r.vtx), 0, 'transactions of a header')
    return btc.compact(len(l)) + b''.join(h.ser() + b'\x00' for h in l), make, check


def m_tx(rng):
    t = btc.gen_tx(rng)

    def make():
        m = M.msg_tx()
        m.tx = t.real()
        return m

    def check(mon, m):
        mon.check(type(m.tx) is CTransaction, 'type of the transaction')
        c20.fields_tx(mon, m.tx, t)
        mon.same(m.tx.GetHash(), btc.dsha(t.ser()), 'transaction hash')
    return t.ser(), make, check


def m_block(rng):
    b = btc.gen_block(rng)

    def make():
        m = M.msg_block()
        m.block = b.real()
        return m

    def check(mon, m):
        mon.check(type(m.block) is CBlock, 'type of the block')
        c20.fields_header(mon, m.block, b.header)
        mon.eq([t.serialize() for t in m.block.vtx], [t.ser() for t in b.txs], 'transactions of the block')
    return b.ser(), make, check


def nonce_like(cls):
    def build(rng):
        n = gen.int_in(rng, 0, 2**64 - 1)
        return le(n, 8), lambda: cls(nonce=n), lambda mon, m: mon.same(m.nonce, n, 'nonce')
    return build


def empty(cls):
    return lambda rng: (b'', cls, lambda mon, m: None)


KINDS = {
    b'version': (M.msg_version, m_version), b'verack': (M.msg_verack, empty(M.msg_verack)), b'addr': (M.msg_addr, m_addr),
    b'alert': (M.msg_alert, m_alert), b'inv': (M.msg_inv, inv_like(M.msg_inv)), b'getdata': (M.msg_getdata, inv_like(M.msg_getdata)),
    b'getblocks': (M.msg_getblocks, locator_like(M.msg_getblocks)), b'getheaders': (M.msg_getheaders, locator_like(M.msg_getheaders)),
    b'headers': (M.msg_headers, m_headers), b'tx': (M.msg_tx, m_tx), b'block': (M.msg_block, m_block),
    b'getaddr': (M.msg_getaddr, empty(M.msg_getaddr)), b'ping': (M.msg_ping, nonce_like(M.msg_ping)),
    b'pong': (M.msg_pong, nonce_like(M.msg_pong)), b'mempool': (M.msg_mempool, empty(M.msg_mempool)),
}
NAMES = sorted(KINDS)


def gen_msg(rng, name=None):
    name = name or rng.choice(NAMES)
    cls, build = KINDS[name]
    return (name, cls) + build(rng)


def kinds(rng, mon, i):
    """Every kind of message, written and read"""
    for name in NAMES:
        _, cls, body, make, check = gen_msg(rng, name)
        net, magic, params = rng.choice(NETS)
        m = mon.call('making a message', make)
        want = frame(magic, name, body)
        mon.same(mon.call('to_bytes', m.to_bytes, params()), want, '%s on %s' % (name, net))
        mon.same(mon.call('to_bytes', m.to_bytes), frame(NETS[0][1], name, body), '%s without parameters' % name)
        f = io.BytesIO()
        m.stream_serialize(f)
        mon.same(f.getvalue(), frame(NETS[0][1], name, body), '%s: stream_serialize' % name)
        f = io.BytesIO(want + b'next')
        r = mon.call('reading %s' % name, M.MsgSerializable.stream_deserialize, f, params())
        mon.check(type(r) is cls, 'kind of message read', type(r), name)
        mon.eq(f.read(), b'next', 'rest of the stream')
        check(mon, r)
        mon.same(r.to_bytes(params()), want, '%s written after reading' % name)
        r2 = mon.call('from_bytes', cls.from_bytes, frame(NETS[0][1], name, body))
        mon.check(type(r2) is cls, 'kind of message from bytes', type(r2))
        check(mon, r2)
        # several objects do not share state
        check(mon, r)
        mon.state(name.decode(), want)


def old_versions(rng, mon, i):
    """Version messages of older protocols leave out the last fields"""
    for v in (rng.choice((0, 1, 105, gen.int_in(rng, -2**31, 105))), rng.choice((106, 208, gen.int_in(rng, 106, 208))), 209, 10300):
        to, fr = MAddr(rng), MAddr(rng)
        services, time, nonce = gen.int_in(rng, 0, 2**64 - 1), gen.int_in(rng, -2**63, 2**63 - 1), gen.int_in(rng, 0, 2**64 - 1)
        sub, height = gen.data(rng, 300, 20), gen.int_in(rng, -2**31, 2**31 - 1)
        body = le(v, 4, True) + le(services, 8) + le(time, 8, True) + to.ser(False)
        if v >= 106:
            body += fr.ser(False) + le(nonce, 8) + btc.compact(len(sub)) + sub
        if v >= 209:
            body += le(height, 4, True)
        r = mon.call('reading version %d' % v, M.MsgSerializable.from_bytes, frame(NETS[0][1], b'version', body))
        mon.eq((r.nVersion, r.nServices, r.nTime), (300 if v == 10300 else v, services, time), 'version fields')
        to.check(mon, r.addrTo, False)
        if v >= 106:
            fr.check(mon, r.addrFrom, False)
            mon.eq((r.nNonce, r.strSubVer), (nonce, sub), 'version fields')
        else:
            mon.eq((r.addrFrom, r.nNonce, r.strSubVer), (None, None, None), 'fields of a later protocol')
        mon.eq(r.nStartingHeight, height if v >= 209 else None, 'starting height')
        mon.state('old version', body)


class Pieces(io.RawIOBase):
    """Delivers a few bytes at a time"""
    def __init__(self, data, rng):
        self.data, self.pos, self.rng = data, 0, rng

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), self.rng.choice((1, 1, 2, 7, 23, 100, 5000)), len(self.data) - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def streams(rng, mon, i):
    """Several messages one after another; every message is read whole and in order"""
    net, magic, params = rng.choice(NETS)
    l, out = [], b''
    for _ in range(rng.choice((1, 2, 3, 5, 9))):
        if rng.random() < 0.15:
            name = rng.choice((b'filterload', b'notfound', b'reject', b'x', b'abcdefghijkl', b'pin', b'pingg', b'PING', b'', b'\0ping', b'\0\0tx', b'\0' * 7 + b'inv'))
            body = gen.data(rng, 300, 30)
            l.append((name, None, None))
        else:
            name, cls, body, make, check = gen_msg(rng)
            l.append((name, cls, check))
        out += frame(magic, name, body)
    how = rng.randrange(3)
    sender = None
    if how == 0:
        f = io.BytesIO(out)
    elif how == 1:
        f = io.BufferedReader(Pieces(out, rng), rng.choice((1, 16, 8192)))
    else:
        a, b = socket.socketpair()
        a.settimeout(60)
        cuts = sorted(rng.randint(0, len(out)) for _ in range(rng.randint(0, 6)))

        def send():
            try:
                at = 0
                for c in cuts + [len(out)]:
                    a.sendall(out[at:c])
                    at = c
            except OSError:
                pass            # the reader gave up, and says why
            finally:
                a.close()
        sender = threading.Thread(target=send, daemon=True)
        sender.start()
        b.settimeout(60)
        f = b.makefile('rb')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for name, cls, check in l:
                r = mon.call('reading %r from a stream' % name, M.MsgSerializable.stream_deserialize, f, params())
                if cls is None:
                    mon.eq(r, None, 'unknown command %r' % name)
                    mon.event('unknown commands skipped')
                else:
                    mon.check(type(r) is cls, 'kind of message read', type(r), name)
                    check(mon, r)
                    mon.event('messages read from streams')
            mon.raises('reading past the end', SerializationTruncationError, M.MsgSerializable.stream_deserialize, f, params())
    finally:
        f.close()
        if sender:
            b.close()
            sender.join(60)
    mon.state('stream', (net, how, out))


def large(rng, mon, i):
    """Messages as large as the protocol allows them to be"""
    net, magic, params = rng.choice(NETS)
    h = gen.blob(rng, 32)
    n = rng.choice((1000, 1819, 1820, 2000, 3641, 3642, 20000, 50000))
    kind = i % 4
    if kind == 0:
        name, cls = rng.choice(((b'inv', M.msg_inv), (b'getdata', M.msg_getdata)))
        m, body = cls(), [btc.compact(n)]
        for k in range(n):
            c = CInv()
            c.type, c.hash = k % 4, le(k, 4) + h[4:]
            m.inv.append(c)
            body.append(le(k % 4, 4) + le(k, 4) + h[4:])
        look = lambda r: [(c.type, c.hash) for c in r.inv] == [(c.type, c.hash) for c in m.inv]
    elif kind == 1:
        name, cls = rng.choice(((b'getblocks', M.msg_getblocks), (b'getheaders', M.msg_getheaders)))
        n = min(n, 3642)
        m = cls()
        l = [le(k, 4) + h[4:] for k in range(n)]
        m.locator.vHave, m.hashstop = l, h
        body = [le(m.locator.nVersion, 4, True), btc.compact(n)] + l + [h]
        look = lambda r: r.locator.vHave == l and r.hashstop == h
    elif kind == 2:
        name, cls, m = b'alert', M.msg_alert, M.msg_alert()
        a, b = h * (n // 16), h * (n // 7)
        m.alert.vchMsg, m.alert.vchSig = a, b
        body = [btc.compact(len(a)), a, btc.compact(len(b)), b]
        look = lambda r: (r.alert.vchMsg, r.alert.vchSig) == (a, b)
    else:
        name, cls, m = b'tx', M.msg_tx, M.msg_tx()
        t = btc.MTx(1, [(le(k, 4) + h[4:], k, h * (k % 5), btc.MASK32) for k in range(min(n, 3000))], [(k, h * (k % 3)) for k in range(min(n, 3000))], 0)
        m.tx = t.real()
        body = [t.ser()]
        look = lambda r: r.tx.serialize() == t.ser()
    want = frame(magic, name, b''.join(body))
    mon.same(mon.call('to_bytes', m.to_bytes, params()), want, 'large %s' % name.decode())
    f = io.BytesIO()
    m.stream_serialize(f)
    mon.same(f.getvalue(), frame(NETS[0][1], name, b''.join(body)), 'large %s: stream_serialize' % name.decode())
    f = io.BytesIO(want + want)
    for _ in range(2):
        r = mon.call('reading a large %s' % name.decode(), M.MsgSerializable.stream_deserialize, f, params())
        mon.check(type(r) is cls and look(r), 'large message read', name)
    mon.eq(f.read(), b'', 'rest of the stream')
    mon.event('large messages')
    mon.state('large', (name, len(want), h))


def damage(rng, mon, i):
    net, magic, params = rng.choice(NETS)
    name, cls, body, make, check = gen_msg(rng)
    if len(body) > 2000:
        body, name, cls = le(5, 8), b'ping', M.msg_ping
    good = frame(magic, name, body)

    def read(b):
        return M.MsgSerializable.stream_deserialize(io.BytesIO(b), params())

    with contextlib.redirect_stdout(io.StringIO()):
        # every bit of the network, length and checksum fields
        for at in list(range(4)) + list(range(16, 24)):
            w = bytearray(good)
            w[at] ^= 1 << rng.randrange(8)
            mon.raises('byte %d of the header' % at, (ValueError, SerializationError), read, bytes(w))
        for bit in range(32):
            w = bytearray(good)
            w[20 + bit // 8] ^= 1 << bit % 8
            mon.raises('checksum bit %d' % bit, ValueError, read, bytes(w))
            w[20:24] = good[20:24]
            w[bit // 8] ^= 1 << bit % 8
            mon.raises('network bit %d' % bit, ValueError, read, bytes(w))
        mon.event('header bits', 64)
        for other, m2, p2 in NETS:
            if other != net:
                mon.raises('message of another network', ValueError, read, m2 + good[4:])
        # the body
        for _ in range(12 if body else 0):
            w = gen.mutate(rng, body)
            if len(w) == len(body) and w != body:
                mon.raises('damaged body', ValueError, read, good[:24] + w)
                mon.state('damaged body', good[:24] + w)
            at = rng.randrange(len(body))
            w = bytearray(good)
            w[24 + at] ^= 1 << rng.randrange(8)
            mon.raises('damaged body', ValueError, read, bytes(w))
        # cuts
        for n in set(list(range(0, 26)) + [len(good) - 1] + [rng.randrange(len(good)) for _ in range(10)]):
            if n < len(good):
                mon.raises('frame cut at %d of %d' % (n, len(good)), SerializationTruncationError, read, good[:n])
                mon.event('cuts')
        # lengths over the limit are refused before anything is read
        big = rng.choice((0x02000001, 0x7fffffff, 0x80000000, 0xffffffff))

        class Tail:
            def __init__(self):
                self.b = io.BytesIO(good[:16] + le(big, 4) + good[20:])

            def read(self, n):
                mon.check(n <= 0x02000000, 'asked to read %d bytes' % n)
                return self.b.read(n)
        mon.raises('length %#x' % big, SerializationError, M.MsgSerializable.stream_deserialize, Tail(), params())
        # a body cut short with the right checksum
        if body and name != b'version':
            n = rng.randrange(len(body))
            mon.raises('%s cut to %d of %d' % (name, n, len(body)), SerializationError, read, frame(magic, name, body[:n]))
            mon.event('short bodies')
        # too many elements announced
        if name in (b'addr', b'inv', b'getdata', b'headers'):
            mon.raises('count', SerializationError, read, frame(magic, name, btc.compact(2**rng.choice((20, 32, 63))) + body[1:]))
        # any bytes at all
        w = gen.mutate(rng, good)
        how, r = mon.outcome('damaged frame', read, w, errors=(SerializationError, ValueError))
        mon.event('damaged frames ' + how)
        # any body with the right checksum
        w = gen.mutate(rng, body)
        how, r = mon.outcome('damaged body with its checksum', read, frame(magic, name, w), errors=SerializationError)
        if how == 'ok':
            mon.check(type(r) is cls, 'kind of message read')
            if name not in (b'version',):
                s = mon.call('to_bytes', r.to_bytes, params())
                mon.same(read(s).to_bytes(params()), s, 'message read again')
    mon.state('damaged', good)


def parts(rng, mon, i):
    """Addresses and alerts on their own"""
    for _ in range(5):
        a = MAddr(rng)
        mon.same(mon.call('serialize', a.real().serialize), a.ser(), 'address')
        a.check(mon, mon.call('deserialize', CAddress.deserialize, a.ser()))
        f = io.BytesIO()
        a.real().stream_serialize(f, without_time=True)
        mon.same(f.getvalue(), a.ser(False), 'address without time')
        l = [gen.int_in(rng, -2**31, 2**31 - 1) for _ in range(count(rng))]
        sub = [gen.data(rng, 60, 10) for _ in range(count(rng))]
        i32 = [gen.int_in(rng, -2**31, 2**31 - 1) for _ in range(6)]
        i64 = [gen.int_in(rng, -2**63, 2**63 - 1) for _ in range(2)]
        text = [gen.data(rng, 300, 20) for _ in range(3)]
        var = lambda b: btc.compact(len(b)) + b
        raw = le(i32[0], 4, True) + le(i64[0], 8, True) + le(i64[1], 8, True) + le(i32[1], 4, True) + le(i32[2], 4, True) + btc.compact(len(l)) + \
            b''.join(le(v, 4, True) for v in l) + le(i32[3], 4, True) + le(i32[4], 4, True) + btc.compact(len(sub)) + \
            b''.join(var(s) for s in sub) + le(i32[5], 4, True) + b''.join(var(t) for t in text)
        u = CUnsignedAlert()
        u.nVersion, u.nRelayUntil, u.nExpiration, u.nID, u.nCancel, u.setCancel, u.nMinVer, u.nMaxVer, u.setSubVer, u.nPriority, \
            u.strComment, u.strStatusBar, u.strReserved = i32[0], i64[0], i64[1], i32[1], i32[2], l, i32[3], i32[4], sub, i32[5], text[0], text[1], text[2]
        mon.same(mon.call('serialize', u.serialize), raw, 'alert contents')
        r = mon.call('deserialize', CUnsignedAlert.deserialize, raw)
        mon.eq((r.nVersion, r.nRelayUntil, r.nExpiration, r.nID, r.nCancel, list(r.setCancel), r.nMinVer, r.nMaxVer, list(r.setSubVer), r.nPriority,
                r.strComment, r.strStatusBar, r.strReserved),
               (i32[0], i64[0], i64[1], i32[1], i32[2], l, i32[3], i32[4], sub, i32[5], text[0], text[1], text[2]), 'alert contents read')
        mon.same(r.serialize(), raw, 'alert contents written after reading')
        mon.raises('alert contents cut', SerializationError, CUnsignedAlert.deserialize, raw[:rng.randrange(len(raw))])
        mon.state('alert contents', raw)
        bad = rng.choice((-1, 65536, 1 << 32))
        x = a.real()
        x.port = bad
        how, _ = mon.outcome('port %d' % bad, x.serialize)
        mon.check(how == 'error', 'port %d was written' % bad)


def become(x, y):
    """Gives x the contents of y, in place where they can be"""
    for k, v in list(vars(y).items()):
        old = getattr(x, k, None)
        if type(old) is list and type(v) is list:
            old[:] = v
        elif isinstance(v, (CAddress, CInv, CBlockLocator, CAlert)) and type(old) is type(v):
            become(old, v)
        else:
            setattr(x, k, v)


def reuse(rng, mon, i):
    """A message sent, changed and sent again: what is written is always what it holds"""
    name = rng.choice(NAMES)
    _, cls, body, make, check = gen_msg(rng, name)
    m = make() if rng.random() < 0.5 else M.MsgSerializable.from_bytes(frame(NETS[0][1], name, body))
    bodies = []
    for _ in range(rng.randint(2, 4)):
        net, magic, params = rng.choice(NETS)
        mon.same(mon.call('to_bytes', m.to_bytes, params()), frame(magic, name, body), '%s after %d changes' % (name, len(bodies)))
        if rng.random() < 0.5:
            f = io.BytesIO()
            m.stream_serialize(f)
            mon.same(f.getvalue(), frame(NETS[0][1], name, body), '%s after %d changes: stream_serialize' % (name, len(bodies)))
        bodies.append(body)
        _, _, body, make, check = gen_msg(rng, name)
        if rng.random() < 0.3:
            repr(m)
        become(m, make())
    check(mon, m)
    mon.same(m.to_bytes(), frame(NETS[0][1], name, body), '%s after the last change' % name)
    mon.state('history of ' + name.decode(), bodies)


def fresh(rng, mon, i):
    """Messages and their parts as they are made, only some of their fields set; constants of the protocol"""
    mon.eq((M.MSG_TX, M.MSG_BLOCK, M.MSG_FILTERED_BLOCK), (1, 2, 3), 'inventory types')
    t = btc.MTx(1, [], [], 0).ser()
    none = bytes(10) + b'\xff\xff' + bytes(4) + bytes(2)
    v = rng.choice((60002, 70001, 31402, 31401, gen.int_in(rng, 300, 2**31 - 1)))
    bodies = {b'verack': b'', b'getaddr': b'', b'mempool': b'', b'addr': b'\x00', b'inv': b'\x00', b'getdata': b'\x00', b'headers': b'\x00',
              b'alert': b'\x00\x00', b'ping': bytes(8), b'pong': bytes(8), b'tx': t,
              b'block': btc.le(1, 4) + bytes(76) + b'\x00'}
    for name, body in bodies.items():
        cls = KINDS[name][0]
        for m in (mon.call('a new %s' % name, cls), mon.call('a new %s of version %d' % (name, v), cls, v)):
            got = mon.call('to_bytes', m.to_bytes)
            if name == b'block':
                # its version is the one of its time
                mon.check(got[24 + 4:] == body[4:], 'a new block message', got)
            else:
                mon.same(got, frame(NETS[0][1], name, body), 'a new %s message' % name)
            mon.state('new', (name, v))
        mon.eq(m.protover, v, 'version a message was made for')
    for name in (b'getblocks', b'getheaders'):
        m = KINDS[name][0]()
        body = m.to_bytes()[24:]
        mon.same(body[4:], b'\x00' + bytes(32), 'a new %s message: as many as there are' % name)
        have = [gen.blob(rng, 32) for _ in range(rng.randint(1, 4))]
        m.locator.vHave += have
        mon.same(m.to_bytes(), frame(NETS[0][1], name, body[:4] + bytes([len(have)]) + b''.join(have) + bytes(32)), '%s with hashes' % name)
        n = CBlockLocator(v)
        mon.same(n.serialize(), le(v, 4, True) + b'\x00', 'a new locator of version %d' % v)
        mon.eq(KINDS[name][0]().locator.vHave, [], 'another message has its own locator')
    # addresses carry a time since version 31402
    for pv in (v, 31402, 31401, rng.randint(1, 70002)):
        a = CAddress(pv)
        want = le(1, 8) + none
        mon.same(a.serialize(), (bytes(4) if pv >= 31402 else b'') + want, 'a new address of version %d' % pv)
        f = io.BytesIO()
        a.stream_serialize(f, True)
        mon.same(f.getvalue(), want, 'a new address without its time')
    # a version message greets with what is known
    t0 = int(time.time())
    a, b = M.msg_version(v), M.msg_version(v)
    t1 = int(time.time())
    h = rng.choice((None, gen.int_in(rng, 0, 2**31 - 1)))
    for m in (a, b):
        mon.eq(m.nVersion, v, 'version')
        if h is not None:
            m.nStartingHeight = h
        got = m.to_bytes()[24:]
        mon.same(got[:12], le(v, 4, True) + le(1, 8), 'a new version message')
        mon.check(t0 <= int.from_bytes(got[12:20], 'little') <= t1, 'time of a new version message', got)
        mon.same(got[20:72], (le(1, 8) + none) * 2, 'addresses of a new version message')
        n = got[80]
        mon.check(n == len(m.strSubVer) and got[81:81 + n] == m.strSubVer, 'name of a new version message', got)
        mon.check(m.strSubVer[:1] == b'/' and m.strSubVer[-1:] == b'/', 'name is not one (BIP14)', m.strSubVer)
        mon.same(got[81 + n:], le(-1 if h is None else h, 4, True), 'height of a new version message')
    mon.check(a.nNonce != b.nNonce, 'two version messages have one nonce', a.nNonce)
    fresh.bits |= a.nNonce | b.nNonce
    fresh.n += 2
    # every bit of it comes up in the end
    mon.check(fresh.n < 80 or fresh.bits == 2**64 - 1, 'nonces are not of 64 bits', fresh.bits)
    u = CUnsignedAlert()
    mon.same(u.serialize(), le(1, 4) + bytes(8 + 8 + 4 + 4 + 1 + 4 + 4 + 1 + 4 + 3), 'a new unsigned alert')
    mon.same(CAlert().serialize(), b'\x00\x00', 'a new alert')
    c = CInv()
    c.hash = gen.blob(rng, 32)
    mon.same(c.serialize(), bytes(4) + c.hash, 'a new inventory entry')
    for kind, text in ((0, 'Error'), (1, 'TX'), (2, 'Block'), (3, 'FilteredBlock'), (4, '4'), (-1, '-1')):
        c.type = kind
        mon.check('type=%s ' % text in repr(c) and c.hash.hex() in repr(c), 'an inventory entry printed', c, kind)
    a = CAddress()
    a.ip, a.port = '1.2.%d.4' % rng.randrange(256), rng.randrange(65536)
    mon.check('ip=%s port=%d)' % (a.ip, a.port) in repr(a), 'an address printed', a)


fresh.bits, fresh.n = 0, 0
SUITES = [Suite('reuse', reuse, 2800, 12000), Suite('kinds', kinds, 2100, 9000), Suite('old versions', old_versions, 1120, 4000), Suite('streams', streams, 2800, 15000),
          Suite('damage', damage, 2100, 12000), Suite('parts', parts, 1120, 6000), Suite('fresh', fresh, 640, 2000), Suite('large', large, 48, 400)]

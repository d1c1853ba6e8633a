"""The RPC client against a stand-in node"""
import http.client, json, os, socket
from decimal import Decimal
import bitcoin
from harness.worker import Suite
from harness import gen
from harness.models import btc, rpcserver, spend
from harness.props import c20, c35
from harness.props.c34 import check58
from bitcoin import rpc
from bitcoin.core import COutPoint, CTransaction, CBlock, CTxOut, CMutableTransaction
from bitcoin.core.script import CScript
from bitcoin.wallet import P2PKHBitcoinAddress, P2SHBitcoinAddress

RULE = ('every call the proxy converts, over HTTP to a stand-in node that records requests and answers with amounts written in every '
        'way JSON allows, hashes, transactions, blocks and errors; several calls on one connection; configuration files in every '
        'layout. Non-trivial: distinct requests and replies, amounts and configurations.')
S = {}
COIN = 100000000


def start(mon, job):
    S['reply'] = None

    def handler(method, params):
        r = S['reply']
        if isinstance(r, rpcserver.Refuse):
            raise r
        return r
    S['server'] = rpcserver.Server(handler)


def proxy(cls=rpc.Proxy, auth='u:p', path='', **kw):
    return cls('http://%s@127.0.0.1:%d%s' % (auth, S['server'].port, path), **kw)


def request(mon, method, params):
    """The one request made since"""
    l = S['server'].requests
    mon.eq(len(l), 1, 'requests made')
    q = l.pop()
    body = json.loads(q['body'].decode(), parse_float=Decimal)
    mon.eq(body['method'], method, 'method')
    mon.check(same(body['params'], params), 'parameters of %s: %r, expected %r' % (method, body['params'], params))
    mon.event('requests')
    mon.state('request', q['body'])
    return q, body


def same(a, b):
    """Equal, with booleans apart from numbers"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def call(mon, p, reply, method, params, fn, what=None):
    S['reply'] = reply if isinstance(reply, (str, rpcserver.Refuse)) else json.dumps(reply)
    del S['server'].requests[:]
    r = mon.call(what or method, fn)
    request(mon, method, params)
    return r


def refused(mon, p, method, params, types, fn, rng):
    code = rng.choice((-1, -5, -8, -32601, gen.int_in(rng, -40000, 40000)))
    text = rng.choice(('Block not found', 'Block height out of range', '', 'caf\u00e9 "\\ %s %d', 'x' * 300))
    S['reply'] = rpcserver.Refuse(code, text)
    del S['server'].requests[:]
    e = mon.raises(method, types, fn)
    if params is not None:
        request(mon, method, params)
    if isinstance(e, rpc.JSONRPCException):
        mon.check(e.error['code'] == code and e.error['message'] == text, 'error reported', e.error)
    mon.event('refusals')


def gen_sat(rng):
    return rng.choice((0, 1, 10, 99999999, COIN, 21000000 * COIN, 21000000 * COIN - 1, 2099999997690000, 29, 57, 58, 113, 1 << 50)) if rng.random() < 0.3 \
        else gen.int_in(rng, 0, 21000000 * COIN)


def amount(rng, sat):
    """A JSON number for an amount"""
    sign, v = ('-', -sat) if sat < 0 else ('', sat)
    full = '%d.%08d' % divmod(v, COIN)
    forms = [full, full]
    short = full.rstrip('0').rstrip('.')
    forms.append(short)
    forms.append('%de-8' % v)
    forms.append('%dE-08' % v)
    forms.append('%d.0e-8' % v)
    forms.append(full + '00')
    if v and v % 1000 == 0:
        forms.append('%de-5' % (v // 1000))
    return sign + rng.choice(forms)


def hexid(rng):
    h = gen.blob(rng, 32)
    return h, h[::-1].hex()


def extras(rng, names):
    """Some further fields of a reply, which are handed on as they are"""
    vals = (0, 1, 7, -1, 10**9, 1 << 40, True, False, None, '', 'text', '00' * 32, [], ['x'], {}, {'a': 0}, '0.10')
    return {n: rng.choice(vals) for n in names if rng.random() < 0.5}


def amounts(rng, mon, i):
    """Amounts are converted exactly in both directions"""
    p = proxy()
    for _ in range(12):
        sat = gen_sat(rng)
        mon.state('amount', sat)
        h = gen.blob(rng, 20)
        addr = check58(rng.choice((b'\x00', b'\x05')) + h)
        from bitcoin.wallet import CBitcoinAddress
        a = rng.choice((addr, CBitcoinAddress(addr)))
        txid, text = hexid(rng)
        S['reply'] = json.dumps(text)
        del S['server'].requests[:]
        mon.same(mon.call('sendtoaddress', p.sendtoaddress, a, sat), txid, 'txid')
        body = json.loads(S['server'].requests.pop()['body'].decode(), parse_float=Decimal)
        mon.check(body['method'] == 'sendtoaddress' and len(body['params']) == 2 and body['params'][0] == addr, 'request', body)
        mon.check(isinstance(body['params'][1], (Decimal, int)) and Decimal(body['params'][1]) * COIN == sat,
                  'asked to send %r for %d satoshis' % (body['params'][1], sat))
        mc = gen.int_in(rng, 0, 10**6)
        mon.same(call(mon, p, amount(rng, sat), 'getreceivedbyaddress', [addr, mc], lambda: p.getreceivedbyaddress(a, mc)), sat, 'amount received')
        neg = -sat if rng.random() < 0.2 else sat
        acc = rng.choice(('*', '', 'caf\u00e9', 'a"b\\'))
        mon.same(call(mon, p, amount(rng, neg), 'getbalance', [acc, mc], lambda: p.getbalance(acc, mc)), neg, 'balance')
        mon.same(call(mon, p, amount(rng, neg), 'getbalance', ['*', 1], lambda: p.getbalance()), neg, 'balance')
        mon.same(call(mon, p, amount(rng, sat), 'getreceivedbyaddress', [addr, 1], lambda: p.getreceivedbyaddress(a)), sat, 'amount received')
        fee = gen_sat(rng)
        with_balance = rng.random() < 0.5
        ex = extras(rng, ('version', 'blocks', 'errors', 'difficulty', 'testnet', 'proxy', 'relayfee', 'unlocked_until'))
        more = json.dumps(ex)[1:-1] + ',' if ex else ''
        r = call(mon, p, '{%s%s"paytxfee":%s}' % (more, '"balance":%s,' % amount(rng, sat) if with_balance else '', amount(rng, fee)),
                 'getinfo', [], lambda: p.getinfo())
        want = dict(ex, paytxfee=fee)
        if with_balance:
            want['balance'] = sat
        mon.check(same(r, want) and all(type(r[k]) is type(want[k]) for k in want), 'getinfo', r, want)
        script = btc.gen_script(rng)
        oh, otext = hexid(rng)
        bh, btext = hexid(rng)
        n = gen.int_in(rng, 0, btc.MASK32)
        inc = rng.random() < 0.5
        ex = extras(rng, ('confirmations', 'version', 'coinbase', 'time', 'txid', 'vout', 'address'))
        more = json.dumps(ex)[1:-1] + ',' if ex else ''
        r = call(mon, p, '{%s"bestblock":"%s","value":%s,"scriptPubKey":{%s"hex":"%s"}}' %
                 (more, btext, amount(rng, sat), rng.choice(('', '"asm":"",', '"asm":"OP_1","reqSigs":1,"type":"x","addresses":[],')), script.hex()), 'gettxout', [otext, n, inc],
                 rng.choice((lambda: p.gettxout(COutPoint(oh, n), includemempool=inc), lambda: p.gettxout(COutPoint(oh, n), inc),
                             (lambda: p.gettxout(COutPoint(oh, n))) if inc else (lambda: p.gettxout(includemempool=inc, outpoint=COutPoint(oh, n))))))
        mon.check(type(r['txout']) is CTxOut and r['txout'].nValue == sat and type(r['txout'].nValue) is int and bytes(r['txout'].scriptPubKey) == script,
                  'unspent output', r, sat)
        mon.check(type(r['txout'].scriptPubKey) is CScript, 'script type')
        mon.check({k: v for k, v in r.items() if k != 'txout'} == dict(ex, bestblock=bh), 'details of an unspent output', r)
    mon.raises('gettxout of a spent output', IndexError, lambda: call_null(p, COutPoint(oh, n)))


def call_null(p, o):
    S['reply'] = 'null'
    return p.gettxout(o)


def unspent(rng, mon, i):
    p = proxy()
    pkh, sh, wif = c35.on_chain(rng)
    try:
        l, want = [], []
        for _ in range(rng.choice((0, 1, 2, 3, 8))):
            h, text = hexid(rng)
            sat, n, script = gen_sat(rng), gen.int_in(rng, 0, btc.MASK32), btc.gen_script(rng)
            hh = gen.blob(rng, 20)
            k = rng.random() < 0.5
            ex = extras(rng, ('confirmations', 'account', 'spendable', 'solvable', 'redeemScript', 'label', 'safe'))
            l.append('{"txid":"%s","vout":%d,"address":"%s","scriptPubKey":"%s","amount":%s%s}' %
                     (text, n, check58(bytes([pkh if k else sh]) + hh), script.hex(), amount(rng, sat), ',' + json.dumps(ex)[1:-1] if ex else ''))
            want.append((h, n, P2PKHBitcoinAddress if k else P2SHBitcoinAddress, hh, script, sat, ex))
        reply = '[' + ','.join(l) + ']'
        lo, hi = gen.int_in(rng, 0, 1000), gen.int_in(rng, 0, 10**7)
        addrs = [check58(bytes([rng.choice((pkh, sh))]) + gen.blob(rng, 20)) for _ in range(rng.choice((0, 1, 3)))]
        from bitcoin.wallet import CBitcoinAddress
        for params, fn in (([0, 9999999], lambda: p.listunspent()), ([lo, hi], lambda: p.listunspent(lo, hi)),
                           ([lo, hi, addrs], lambda: p.listunspent(lo, hi, [CBitcoinAddress(a) for a in addrs])),
                           ([lo, 9999999, addrs], lambda: p.listunspent(minconf=lo, addrs=addrs))):
            r = call(mon, p, reply, 'listunspent', params, fn)
            mon.eq(len(r), len(want), 'unspent outputs')
            for u, (h, n, kind, hh, script, sat, ex) in zip(r, want):
                o = u['outpoint']
                mon.check(isinstance(o, COutPoint) and o.hash == h and o.n == n, 'outpoint', u)
                mon.check(type(u['address']) is kind and bytes(u['address']) == hh, 'address', u)
                mon.check(type(u['scriptPubKey']) is CScript and bytes(u['scriptPubKey']) == script, 'script', u)
                mon.same(u['amount'], sat, 'amount')
                mon.check({x: u[x] for x in u if x not in ('outpoint', 'address', 'scriptPubKey', 'amount')} == ex, 'other fields', u, ex)
                mon.event('unspent outputs')
        for unlock in (True, False):
            outs = [COutPoint(h, n) for h, n, *_ in want]
            mon.same(call(mon, p, 'true', 'lockunspent', [unlock, [dict(txid=h[::-1].hex(), vout=n) for h, n, *_ in want]],
                          lambda: p.lockunspent(unlock, outs)), True, 'lockunspent')
        hh = gen.blob(rng, 20)
        k = rng.random() < 0.5
        s = check58(bytes([pkh if k else sh]) + hh)
        acc = rng.choice(('', 'acc', 'caf\u00e9'))
        for method, params, fn in (('getnewaddress', [], lambda: p.getnewaddress()), ('getnewaddress', [acc], lambda: p.getnewaddress(acc)),
                                   ('getrawchangeaddress', [], lambda: p.getrawchangeaddress()),
                                   ('getaccountaddress', [None], p.getaccountaddress), ('getaccountaddress', [acc], lambda: p.getaccountaddress(acc))):
            a = call(mon, p, json.dumps(s), method, params, fn)
            mon.check(type(a) is (P2PKHBitcoinAddress if k else P2SHBitcoinAddress) and str(a) == s, method, a)
        pub = spend.key(rng).pub
        for pk in (None, pub, spend.key(rng).pub):
            ex = extras(rng, ('ismine', 'isscript', 'iswatchonly', 'iscompressed', 'account', 'hdkeypath'))
            reply = dict(ex, isvalid=True, address=s)
            if pk is not None:
                reply['pubkey'] = pk.hex()
            r = call(mon, p, reply, 'validateaddress', [s], lambda: p.validateaddress(rng.choice((s, CBitcoinAddress(s)))))
            mon.check(type(r['address']) is (P2PKHBitcoinAddress if k else P2SHBitcoinAddress) and str(r['address']) == s, 'validateaddress: address', r)
            mon.check({x: r[x] for x in r if x != 'address'} == dict(ex, isvalid=True, **({} if pk is None else {'pubkey': pk})), 'validateaddress', r)
        r = call(mon, p, dict(isvalid=False), 'validateaddress', ['xyz'], lambda: p.validateaddress('xyz'))
        mon.eq(r, dict(isvalid=False), 'validateaddress')
        # an address of another chain in a reply is refused rather than taken
        v = rng.choice([x for x in (0, 5, 111, 196, 42) if x not in (pkh, sh)])
        S['reply'] = json.dumps(check58(bytes([v]) + hh))
        mon.raises('address of another chain', bitcoin.base58.Base58Error if hasattr(bitcoin, 'base58') else Exception, p.getnewaddress)
    finally:
        bitcoin.SelectParams('mainnet')


def chain(rng, mon, i):
    """Hashes, transactions and blocks"""
    p = proxy()
    for _ in range(4):
        h, text = hexid(rng)
        height = gen.int_in(rng, 0, 10**7)
        mon.same(call(mon, p, json.dumps(text), 'getblockhash', [height], lambda: p.getblockhash(height)), h, 'block hash')
        refused(mon, p, 'getblockhash', [height], IndexError, lambda: p.getblockhash(height), rng)
        b = btc.gen_block(rng, rng.choice((0, 1, 2, 5)))
        if i % 16 == 0 and height % 2:      # as large as they come
            b = btc.gen_block(rng, 1)
            b.txs[0].vout = [(1, gen.blob(rng, 9000))] * rng.choice((55, 60, 110))
            mon.event('large blocks')
        r = call(mon, p, json.dumps(b.ser().hex()), 'getblock', [text, False], lambda: p.getblock(h))
        mon.check(type(r) is CBlock, 'type of a block')
        mon.same(r.serialize(), b.ser(), 'block')
        refused(mon, p, 'getblock', [text, False], IndexError, lambda: p.getblock(h), rng)
        mon.raises('getblock of text', TypeError, p.getblock, text)
        mon.raises('getblock of a number', TypeError, p.getblock, height)
        t = btc.gen_tx(rng)
        if not t.vin:
            t = btc.gen_tx(rng, 1)
        r = call(mon, p, json.dumps(t.ser().hex()), 'getrawtransaction', [text, 0], lambda: p.getrawtransaction(h))
        mon.check(type(r) is CTransaction, 'type of a transaction')
        c20.fields_tx(mon, r, t)
        refused(mon, p, 'getrawtransaction', [text, 0], IndexError, lambda: p.getrawtransaction(h), rng)
        bh, btext = hexid(rng)
        confirmed = rng.random() < 0.5
        ex = extras(rng, ('confirmations', 'time', 'blocktime', 'size', 'hash', 'account'))
        full = dict(ex, hex=t.ser().hex(), txid=text, version=t.version, locktime=t.locktime, vin=[], vout=[])
        if confirmed:
            full.update(blockhash=btext)
        r = call(mon, p, full, 'getrawtransaction', [text, 1], lambda: p.getrawtransaction(h, True))
        mon.same(r['tx'].serialize(), t.ser(), 'transaction')
        mon.same(r['blockhash'], bh if confirmed else None, 'block hash')
        mon.check({k: v for k, v in r.items() if k not in ('tx', 'blockhash')} == ex, 'details', r, ex)
        refused(mon, p, 'getrawtransaction', [text, 1], IndexError, lambda: p.getrawtransaction(h, verbose=True), rng)
        ids = [hexid(rng) for _ in range(rng.choice((0, 1, 2, 10)))]
        mon.same(call(mon, p, [x for _, x in ids], 'getrawmempool', [], lambda: p.getrawmempool()), [x for x, _ in ids], 'mempool')
        r = call(mon, p, '{"%s":{"fee":0.1}}' % text, 'getrawmempool', [True], lambda: p.getrawmempool(True))
        mon.eq(r, {text: {'fee': Decimal('0.1')}}, 'verbose mempool')
        tx = t.real() if rng.random() < 0.5 else CMutableTransaction.deserialize(t.ser())
        raw = t.ser().hex()
        mon.same(call(mon, p, json.dumps(text), 'sendrawtransaction', [raw], lambda: p.sendrawtransaction(tx)), h, 'txid')
        mon.same(call(mon, p, json.dumps(text), 'sendrawtransaction', [raw, True], lambda: p.sendrawtransaction(tx, allowhighfees=True)), h, 'txid')
        refused(mon, p, 'sendrawtransaction', [raw], rpc.JSONRPCException, lambda: p.sendrawtransaction(tx), rng)
        t2 = btc.change_tx(rng, t)
        extra = rng.choice(([], [[], ['k']], [[dict(txid=text, vout=0)]]))
        done = rng.random() < 0.5
        if t2.vin:
            sx = extras(rng, ('errors', 'txid'))
            r = call(mon, p, dict(sx, hex=t2.ser().hex(), complete=done), 'signrawtransaction', [raw] + extra, lambda: p.signrawtransaction(tx, *extra))
            mon.check({k: v for k, v in r.items() if k != 'tx'} == dict(sx, complete=done) and r['complete'] is done, 'signed', r)
            mon.same(r['tx'].serialize(), t2.ser(), 'signed transaction')
        bl = b.real()
        mon.same(call(mon, p, 'null', 'submitblock', [b.ser().hex()], lambda: p.submitblock(bl)), None, 'submitblock')
        mon.same(call(mon, p, '"duplicate"', 'submitblock', [b.ser().hex(), {}], lambda: p.submitblock(bl, {})), 'duplicate', 'submitblock')
        r = call(mon, p, '{"amount":-1.5}', 'gettransaction', [text], lambda: p.gettransaction(h))
        mon.eq(r, {'amount': Decimal('-1.5')}, 'gettransaction')
        refused(mon, p, 'gettransaction', [text], IndexError, lambda: p.gettransaction(h), rng)
        n = rng.choice(('1.2.3.4', 'host:8333', '[::1]:18333'))
        for fn, word in ((p.addnode, 'add'), (p.addnodeonetry, 'onetry'), (p.removenode, 'remove')):
            mon.same(call(mon, p, 'null', 'addnode', [n, word], lambda: fn(n)), None, 'addnode')
        refused(mon, p, 'getbalance', ['*', 1], rpc.JSONRPCException, lambda: p.getbalance(), rng)
        mon.event('refusals mapped')


def raw(rng, mon, i):
    """Calls passed through: method, parameters, reply, identification, several on one connection"""
    user, pw = rng.choice(('u', 'bitcoinrpc', 'caf\u00e9', '\u00a0u')), rng.choice(('p', 'a:b', 'x=y', '%2e', 'caf\u00e9', 'A' * 44, 'p\u00a0', '\u2003p', 'p\u3000', 'P' * 700))
    cls = rng.choice((rpc.Proxy, rpc.RawProxy))
    path = rng.choice(('', '/', '/wallet/x'))
    p = proxy(cls, user + ':' + pw, path, timeout=30)
    seen = set()
    for _ in range(rng.choice((1, 3, 8))):
        m = rng.choice(('help', 'getblockcount', 'stop', 'a_b', 'x1', '_hidden', 'listaccounts', 'getmininginfo'))
        params = rng.choice(([], [1], ['a', 2, None, True], [{'a': [1, 2]}], [0.5], [2**70, -1, 'caf\u00e9 \u20ac'], [[], {}], ['a', None], [None], [0, '', False], [None, 'x', []]))
        reply = rng.choice(('null', '1', '"x"', '[1,2.50]', '{"a":{"b":0.10000000}}', 'true', '"caf\u00e9"', '123456789012345678901234567890.123456789'))
        S['reply'] = reply
        del S['server'].requests[:]
        how = rng.randrange(3)
        if how == 0:
            r = mon.call(m, lambda: getattr(p, m)(*params))
        elif how == 1 and hasattr(type(p), '_call'):
            r = mon.call(m, lambda: p._call(m, *params))
        else:
            f = getattr(p, m)
            mon.eq(f.__name__, m, 'name of the callable')
            r = mon.call(m, lambda: f(*params))
        mon.check(same(r, json.loads(reply, parse_float=Decimal)) and '0.1' != repr(r), 'reply to %s' % m, r, reply)
        q, body = request(mon, m, json.loads(json.dumps(params), parse_float=Decimal))
        mon.check(body['id'] not in seen, 'two requests with one identifier')
        seen.add(body['id'])
        mon.eq(q['path'], path or '/', 'path')
        mon.eq(q['headers'].get('authorization'), rpcserver.basic(user, pw), 'authorization')
        mon.check(q['headers'].get('content-type', '').startswith('application/json'), 'content type')
        if rng.random() < 0.3:
            refused(mon, p, m, json.loads(json.dumps(params), parse_float=Decimal), rpc.JSONRPCException, lambda: getattr(p, m)(*params), rng)
    # a reply that says nothing is an error, not None
    S['reply'] = rpcserver.MISSING
    del S['server'].requests[:]
    e = mon.raises('a reply without result', rpc.JSONRPCException, lambda: p.help())
    mon.eq(e.error['code'], -343, 'code of a reply without result')
    S['reply'] = 'null'
    mon.raises('python internals', AttributeError, getattr, p, '__len_hint__')
    if not hasattr(type(p), '_batch'):
        return
    S['reply'] = '[7]'
    del S['server'].requests[:]
    calls = [dict(version='1.1', method='m%d' % k, params=[k], id=k) for k in range(rng.choice((1, 2, 5)))]
    r = mon.call('_batch', p._batch, (c for c in calls))
    mon.eq(r, [dict(result=[7], error=None, id=c['id']) for c in calls], 'batch')
    mon.eq(json.loads(S['server'].requests.pop()['body'].decode()), calls, 'batch request')


class Recorder:
    """Connections go to the stand-in node; where they would have gone is recorded"""
    def __enter__(self):
        self.seen = []
        self.saved = http.client.HTTPConnection.connect, http.client.HTTPSConnection.connect

        def http_connect(c):
            self.seen.append(('http', c.host, c.port, c.timeout))
            c.sock = socket.create_connection(('127.0.0.1', S['server'].port), 30)

        def https_connect(c):
            self.seen.append(('https', c.host, c.port, c.timeout))
            c.sock = socket.create_connection(('127.0.0.1', S['server'].port), 30)
        http.client.HTTPConnection.connect, http.client.HTTPSConnection.connect = http_connect, https_connect
        return self

    def __exit__(self, *a):
        http.client.HTTPConnection.connect, http.client.HTTPSConnection.connect = self.saved


def words(rng, but):
    """Printable characters; not those that would be taken for a comment, nor blanks at the ends"""
    return 'w' + ''.join(rng.choice([chr(c) for c in range(0x21, 0x7f) if chr(c) not in but + '#']) for _ in range(rng.randint(1, 40)))


def conf(rng, mon, i):
    """Configuration files: user, password, port, encryption, with comments and blanks anywhere"""
    name = rng.choice(('mainnet', 'testnet', 'regtest'))
    user = rng.choice(('u', 'bitcoinrpc', 'A1', 'a/b', 'u@h', 'x%41', words(rng, ':=')))
    pw = rng.choice(('p', 'x=y', 'a==', '7d8f', 'A' * 44, 'a/b', '/', 'a?b', 'p@ss', '@', 'a:b', ':', '//', 'x%2F', '[x', 'x]y', 'a\\b', 'a b', words(rng, ''), words(rng, '')))
    default = dict(mainnet=8332, testnet=18332, regtest=18332)[name]
    port = rng.choice((None, None, 1, 8332, 18443, 65535, rng.randint(1, 65535)))
    given = rng.choice((None, None, rng.randint(1, 65535)))
    ssl = rng.choice((None, None, '0', '1', 'true', 'false', 'True', 'FALSE'))
    lines = []

    def sp():
        return rng.choice(('', '', ' ', '\t', '  '))

    def entry(k, v):
        return sp() + k + sp() + '=' + sp() + v + sp() + rng.choice(('', '', '# note', '#x=y'))
    entries = [entry('rpcuser', user), entry('rpcpassword', pw)]
    if port is not None:
        entries.append(entry('rpcport', str(port)))
    if ssl is not None:
        entries.append(entry('rpcssl', ssl))
    entries += rng.sample(['# comment', '#rpcuser=other', '', '   ', 'server', 'testnet=1', '[section]', '# a = b', 'rpcallowip=127.0.0.1', 'rpcport2=9', ' #rpcport=1'], rng.randint(0, 6))
    rng.shuffle(entries)
    text = rng.choice(('\n', '\n', '\r\n')).join(entries) + rng.choice(('', '\n'))
    where = rng.random() < 0.5
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'conf.txt')
    if where:
        path = os.path.join(os.path.expanduser('~'), '.bitcoin', 'bitcoin.conf')
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', newline='') as fd:
        fd.write(text)
    bitcoin.SelectParams(name)
    try:
        with Recorder() as rec:
            kw = {}
            if not where:
                kw['btc_conf_file'] = path
            if given is not None:
                kw['service_port'] = given
            tmo = rng.choice((None, 5, 17.5))
            if tmo is not None:
                kw['timeout'] = tmo
            p = mon.call('proxy from configuration', lambda: rng.choice((rpc.Proxy, rpc.RawProxy))(**kw))
            S['reply'] = '5'
            del S['server'].requests[:]
            mon.same(mon.call('call', p.getblockcount), 5, 'reply')
            q, _ = request(mon, 'getblockcount', [])
            mon.eq(q['headers'].get('authorization'), rpcserver.basic(user, pw), 'authorization from %r' % text)
            want = ('https' if ssl in ('1', 'true', 'True') else 'http', 'localhost', port or given or default, tmo or 30)
            mon.eq(rec.seen, [want], 'connection from %r on %s' % (text, name))
            mon.state('configuration', text)
            with open(path, 'w') as fd:
                fd.write('rpcuser=a\nrpcpassword=b\nrpcssl=' + rng.choice(('2', 'yes', '')))
            mon.raises('unknown rpcssl', ValueError, lambda: rpc.Proxy(**kw))
            for miss in ('rpcuser=a', 'rpcpassword=b', ''):
                with open(path, 'w') as fd:
                    fd.write(miss + '\n')
                how, _ = mon.outcome('configuration without credentials', lambda: rpc.Proxy(**kw))
                mon.check(how == 'error', 'a configuration without credentials was accepted')
    finally:
        bitcoin.SelectParams('mainnet')
        os.unlink(path)


def urls(rng, mon, i):
    """Addresses of the service"""
    with Recorder() as rec:
        for scheme in ('http', 'https'):
            port = rng.choice((8332, 1, 65535, rng.randint(1, 65535)))
            host = rng.choice(('localhost', '127.0.0.1', 'node.example', '10.0.0.7'))
            url = '%s://a:b@%s:%d' % (scheme, host, port)
            if rng.random() < 0.25:
                port, url = 80, '%s://a:b@%s' % (scheme, host)
            tmo = rng.choice((None, 7, 2.5))
            p = mon.call('proxy', rng.choice((rpc.Proxy, rpc.RawProxy)), url, **({} if tmo is None else dict(timeout=tmo)))
            S['reply'] = '5'
            del S['server'].requests[:]
            mon.same(mon.call('call', p.getblockcount), 5, 'reply')
            mon.eq(rec.seen, [(scheme, host, port, tmo or 30)], 'connection to %s' % url)
            request(mon, 'getblockcount', [])
            mon.state('url', (scheme, host, port))
            del rec.seen[:]


SUITES = [Suite('amounts', amounts, 360, 5000), Suite('unspent', unspent, 300, 4000), Suite('chain', chain, 240, 3000),
          Suite('raw', raw, 600, 8000), Suite('conf', conf, 600, 6000), Suite('urls', urls, 180, 1000)]

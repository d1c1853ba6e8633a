"""The example programs, end to end"""
import contextlib, gc, io, json, logging, os, re, runpy, subprocess, sys
from decimal import Decimal
import bitcoin
from harness.worker import Suite
from harness import gen
from harness.monitor import REPO
from harness.models import btc, rpcserver, script as ms, secp
from harness.props.c34 import check58
from harness.props.c39 import CHAINS, genesis

RULE = ('the example programs run in process and as subprocesses against a stand-in node: bootstrap files of random chains on every network, also with '
        'a node that fails half way; timestamps of random files and digests paid from random wallets whose signatures vary in size; spends with '
        'random phrases, outpoints and destinations, checked by the independent interpreter. Non-trivial: distinct outputs of programs.')
DIR = os.path.join(REPO, 'lib/python-bitcoinlib/examples')
S = {}
COIN = 10**8


def start(mon, job):
    home = os.environ['HOME']

    def handler(method, params):
        return S['handler'](method, params)
    srv = S['server'] = rpcserver.Server(handler)
    os.makedirs(home + '/.bitcoin', exist_ok=True)
    with open(home + '/.bitcoin/bitcoin.conf', 'w') as fd:
        fd.write('rpcuser=u\nrpcpassword=p\nrpcport=%d\n' % srv.port)


class Both(io.StringIO):
    """Standard output as text and bytes"""
    def __init__(self):
        super().__init__()
        self.buffer = io.BytesIO()


def run(mon, path, args, cwd, sub=False):
    """(status, text, bytes, errors)"""
    mon.event('program runs')
    if sub:
        p = subprocess.run([sys.executable, path] + args, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
        return p.returncode, p.stdout.decode('latin-1'), p.stdout, p.stderr.decode()
    out, err = Both(), io.StringIO()
    argv, was = sys.argv, os.getcwd()
    level = logging.root.level
    sys.argv = [path] + args
    os.chdir(cwd)
    rc = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(path, run_name='__main__')
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                e.__traceback__ = None
            except Exception as e:
                rc = 1
                err.write(repr(e))
                e.__traceback__ = None
    finally:
        sys.argv = argv
        os.chdir(was)
        logging.root.setLevel(level)
        bitcoin.SelectParams('mainnet')
    gc.collect()
    return rc, out.getvalue(), out.buffer.getvalue(), err.getvalue()


def bootstrap(rng, mon, i):
    """bootstrap.dat holds each block from the genesis block up, framed"""
    net = rng.choice((None, 'mainnet', 'testnet', 'regtest'))
    c = CHAINS[net or 'mainnet']
    n = rng.choice((0, 1, 2, 3, 5, 8, gen.size(rng, 40, 6)))
    chain = [genesis(c)] + [btc.gen_block(rng).ser() for _ in range(n + 2)]
    if rng.random() < 0.02:      # a block as large as they come
        b = btc.gen_block(rng, 1)
        b.txs[0].vout = [(1, gen.blob(rng, 9000))] * rng.choice((55, 60, 110))
        chain[rng.randrange(1, n + 2)] = b.ser()
        mon.event('large blocks')
    ids = [btc.dsha(b[:80])[::-1].hex() for b in chain]
    fail = rng.randrange(n + 1) if rng.random() < 0.2 else None
    asked = []

    def handler(method, params):
        asked.append((method, params))
        if method == 'getblockhash':
            return json.dumps(ids[params[0]])
        if method == 'getblock' and params[0] in ids and params[1] is False:
            k = ids.index(params[0])
            if k == fail:
                raise rpcserver.Refuse(-5, 'Block not found')
            return json.dumps(chain[k].hex())
        raise rpcserver.Refuse(-1, 'unexpected')
    S['handler'] = handler
    args = [str(n)] + ([net] if net else [])
    rc, _, out, err = run(mon, DIR + '/make-bootstrap-rpc.py', args, os.environ['VERIF_SCRATCH'], i % 24 == 0)
    want = b''
    for b in chain[:n + 1 if fail is None else fail]:
        want += bytes.fromhex(c['magic']) + btc.le(len(b), 4) + b
    mon.check((rc == 0) == (fail is None), 'exit status %d of the bootstrap maker' % rc, err)
    mon.same(out, want, 'bootstrap file of %d blocks on %s' % (n + 1, net))
    mon.state('bootstrap', out)
    if i % 10 == 0:
        for bad in ([], ['x'], ['1', 'nonet'], ['1', 'mainnet', 'more']):
            rc, text, out, err = run(mon, DIR + '/make-bootstrap-rpc.py', bad, os.environ['VERIF_SCRATCH'])
            mon.check(rc == 1 and out == b'' and text == '', 'usage', bad, rc, err)


def timestamp(rng, mon, i):
    """Each digest gets a transaction that commits to it, pays a sufficient fee and returns the rest"""
    d = os.path.join(os.environ['VERIF_SCRATCH'], 'ts')
    os.makedirs(d, exist_ok=True)
    args, digests = [], []
    for k in range(rng.choice((1, 1, 2, 4))):
        if rng.random() < 0.6:
            b = gen.data(rng, 5000, 100)
            with open('%s/f%d' % (d, k), 'wb') as fd:
                fd.write(b)
            args.append('f%d' % k)
            digests.append(btc.dsha(b))
        else:
            b = gen.blob(rng, rng.choice((20, 32)))
            args.append(b.hex() if rng.random() < 0.7 else b.hex().upper())
            digests.append(b)
    unspent = []
    for k in range(rng.choice((1, 1, 2, 3, 6))):
        sat = rng.choice((gen.int_in(rng, 10**6, 21 * 10**14), rng.randrange(10**6, 10**10), rng.randrange(1, 100) * 10**rng.randrange(6, 12)))
        unspent.append((gen.blob(rng, 32), gen.int_in(rng, 0, btc.MASK32), sat, rng.choice((0, 0, 1, 2, 7, 9999999))))
    unspent = list({u[:2]: u for u in unspent}.values())
    at_first, known = list(unspent), {u[:2]: u[2] for u in unspent}
    spk = b'\x76\xa9\x14' + gen.blob(rng, 20) + b'\x88\xac'
    pub = secp.encode(secp.point(rng.randrange(1, 2**40).to_bytes(32, 'big')), rng.choice('cu'))
    addr = check58(b'\0' + gen.blob(rng, 20))
    small = rng.random() < 0.6
    signed, sent, sizes, txid = [], [], [], {}

    def handler(method, params):
        if method == 'listunspent':
            low, high = (params + [1, 9999999][len(params):])[:2]
            return '[%s]' % ', '.join('{"txid": "%s", "vout": %d, "address": "%s", "scriptPubKey": "%s", "amount": %s, "confirmations": %d}' % (
                h[::-1].hex(), n, addr, spk.hex(), Decimal(v) / COIN, c) for h, n, v, c in unspent if low <= c <= high)
        if method == 'getnewaddress':
            return json.dumps(addr)
        if method == 'validateaddress' and params == [addr]:
            return json.dumps(dict(isvalid=True, address=addr, pubkey=pub.hex(), ismine=True))
        if method == 'signrawtransaction':
            tx, _ = btc.parse_tx(bytes.fromhex(params[0]))
            h, n, s, q = tx.vin[0]
            s = gen.blob(rng, rng.randrange(100, 140) if small else rng.randrange(300, 2000))
            tx.vin[0] = (h, n, btc.push(s), q)
            signed.append(tx)
            sizes.append(len(tx.ser()))
            return json.dumps(dict(hex=tx.ser().hex(), complete=True))
        if method == 'sendrawtransaction':
            raw = bytes.fromhex(params[0])
            sent.append(raw)
            tx, _ = btc.parse_tx(raw)
            left = [u for u in unspent if u[:2] != tx.vin[0][:2]]
            if len(left) == len(unspent):
                raise rpcserver.Refuse(-25, 'Missing inputs')
            unspent[:] = left + [(btc.dsha(raw), 0, tx.vout[0][0], 0)]
            known[btc.dsha(raw), 0] = tx.vout[0][0]
            return json.dumps(btc.dsha(raw)[::-1].hex())
        raise rpcserver.Refuse(-1, 'unexpected')
    S['handler'] = handler
    with open(DIR + '/timestamp-op-ret.py') as fd:
        s = fd.read()
    rc, text, _, err = run(mon, DIR + '/timestamp-op-ret.py', args, d, i % 24 == 0) if i % 12 == 0 else (1, '', b'', '')
    if rc and i % 12 == 0:
        # Two findings; what is below looks at the rest of the program with them repaired
        mon.check("name 'script' is not defined" in err and text == '' and not signed, 'the timestamp program fails', rc, err)
        mon.known('timestamp-script-name')
    if rc:
        path = os.path.join(os.environ['VERIF_SCRATCH'], 'timestamp-op-ret.py')
        for k, (old, new) in enumerate((('[script.OP_RETURN,', '[OP_RETURN,'), ("tx = r['tx']", "tx = CMutableTransaction.from_tx(r['tx'])"))):
            s = s.replace(old, new)
            if k or i % 12 == 0:
                signed[:], sent[:], sizes[:], unspent[:] = [], [], [], at_first
                with open(path, 'w') as fd:
                    fd.write(s)
                rc, text, _, err = run(mon, path, args, d, i % 24 == 0)
                if rc == 0:
                    break
                if not k:
                    mon.check('Object is immutable' in err and len(signed) == len(sent) + 1, 'the timestamp program fails', rc, err)
                    mon.known('timestamp-immutable')
    mon.eq((rc, len(sent)), (0, len(digests)), 'timestamps made', err[-500:])
    mon.same(text, ''.join('%s\n%s\n' % (raw.hex(), btc.dsha(raw)[::-1].hex()) for raw in sent), 'what was printed')
    for raw, dig in zip(sent, digests):
        tx, pos = btc.parse_tx(raw)
        mon.check(pos == len(raw) and raw in [t.ser() for t in signed], 'the transaction sent is not one that was signed')
        mon.eq(len(tx.vin), 1, 'inputs')
        value = [known.pop(tx.vin[0][:2], None)]
        mon.check(value[0], 'input is not an unspent output')
        mon.eq(len(tx.vout), 2, 'outputs')
        mon.same(tx.vout[0][1], btc.push(pub) + b'\xac', 'change output')
        mon.eq(tx.vout[1], (0, b'\x6a' + btc.push(dig)), 'commitment')
        fee = value[0] - tx.vout[0][0]
        mon.check(fee >= 25 * len(raw) and 11000 <= fee <= 25 * max(sizes) + 11001, 'fee', fee, len(raw), sizes)
        mon.state('timestamp', raw)
    mon.event('fee adjusted', len(signed) - len(sent))


def spends(rng, mon, i):
    """The transaction printed spends the output named, to the address named"""
    p2sh = i % 2
    name = 'spend-p2sh-txout' if p2sh else 'spend-p2pkh-txout'
    with open('%s/%s.py' % (DIR, name)) as fd:
        s = fd.read()
    phrase = b'correct horse battery staple'
    m = re.findall(r"lx\('([0-9a-f]{64})'\)", s)
    a = re.findall(r"CBitcoinAddress\('([1-9A-Za-z]+)'\)", s)
    v = re.findall(r'CMutableTxOut\(([0-9.]+)\*COIN', s)
    mon.eq((len(m), len(a), len(v), s.count('vout = 0'), s.count(repr(phrase))), (1, 1, 1, 1, 1), 'parameters in the text of ' + name)
    h, n, sat = m[0], 0, int(Decimal(v[0]) * COIN)
    to = dest = None
    if i >= 2:
        phrase2 = gen.blob(rng, rng.choice((1, 8, 30)))
        h2, n = gen.blob(rng, 32).hex(), rng.choice((0, 1, 7, gen.int_in(rng, 0, 2**32 - 2)))
        sat = rng.choice((rng.randrange(1, 10**6) * 10**3, 10**rng.randrange(3, 15), 5 * 10**rng.randrange(2, 14)))
        hsh, kind = gen.blob(rng, 20), rng.randrange(2)
        to = check58(bytes([5 * kind]) + hsh)
        dest = b'\xa9\x14' + hsh + b'\x87' if kind else b'\x76\xa9\x14' + hsh + b'\x88\xac'
        s = s.replace(repr(phrase), repr(phrase2)).replace(h, h2).replace('vout = 0', 'vout = %d' % n).replace(a[0], to).replace(v[0] + '*COIN', '%d' % sat)
        phrase, h = phrase2, h2
    path = os.path.join(os.environ['VERIF_SCRATCH'], name + '.py')
    with open(path, 'w') as fd:
        fd.write(s)
    rc, text, _, err = run(mon, path, [], os.environ['VERIF_SCRATCH'], i < 2)
    mon.eq(rc, 0, 'exit status', err[-500:])
    import hashlib
    pub = secp.encode(secp.point(hashlib.sha256(phrase).digest()), 'c')
    lines = text.splitlines()
    raw = bytes.fromhex(lines[-1])
    tx, pos = btc.parse_tx(raw)
    mon.eq(pos, len(raw), 'rest of the transaction')
    if p2sh:
        inner = btc.push(pub) + b'\xac'
        spk = b'\xa9\x14' + btc.hash160(inner) + b'\x87'
        mon.eq(lines[:2], [inner.hex(), 'Pay to: ' + check58(b'\x05' + btc.hash160(inner))], 'what was printed')
    else:
        spk = b'\x76\xa9\x14' + btc.hash160(pub) + b'\x88\xac'
    mon.eq((len(tx.vin), tx.vin[0][:2], tx.vin[0][3]), (1, (bytes.fromhex(h)[::-1], n), btc.MASK32), 'input')
    mon.eq((len(tx.vout), tx.vout[0][0]), (1, sat), 'amount')
    if dest:
        mon.same(tx.vout[0][1], dest, 'destination')
    mon.eq((tx.version, tx.locktime), (1, 0), 'version and lock time')
    mon.check(ms.verify(tx.vin[0][2], spk, tx, 0, True), 'the transaction printed does not spend the output', text)
    tx.vout[0] = (tx.vout[0][0] + 1, tx.vout[0][1])
    mon.check(not ms.verify(tx.vin[0][2], spk, tx, 0, True), 'the signature does not cover the amount')
    mon.state('spend', raw)


def messages(rng, mon, i):
    rc, text, _, err = run(mon, DIR + '/msg-serializable.py', [], os.environ['VERIF_SCRATCH'], i == 0)
    mon.eq(rc, 0, 'exit status', err)
    import ast
    l = text.splitlines()
    mon.eq(len(l), 12, 'lines printed')
    got = []
    for k, name in enumerate(('version', 'tx', 'block')):
        mon.eq((l[4 * k], l[4 * k + 2]), ('msg_%s repr:' % name, 'msg_%s serialized:' % name), 'what was printed')
        mon.check(l[4 * k + 1].startswith('msg_%s(' % name), 'what was printed', l[4 * k + 1])
        raw = ast.literal_eval(l[4 * k + 3])
        body = raw[24:]
        mon.same(raw[:24], bytes.fromhex('f9beb4d9') + name.encode().ljust(12, b'\0') + btc.le(len(body), 4) + btc.dsha(body)[:4], 'frame of a message')
        got.append(body)
    mon.same(got[1], btc.le(1, 4) + bytes(6), 'an empty transaction')
    mon.same(got[2], btc.le(2, 4) + bytes(77), 'an empty block')
    mon.state('messages', text)


SUITES = [Suite('bootstrap', bootstrap, 700, 7000), Suite('timestamp', timestamp, 700, 7000), Suite('spends', spends, 300, 3000),
          Suite('messages', messages, 8, 40)]

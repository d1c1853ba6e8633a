"""The seal tool, end to end: seal files, closing transaction, witness files, verification"""
import argparse, contextlib, gc, io, json, logging, os, runpy, shutil, subprocess, sys, tempfile, zlib
from harness.worker import Suite
from harness import gen
from harness.monitor import REPO
from harness.models import pm, btc, seal as M, rpcserver
from harness.props.c14 import T_BTC, T_BTCW, T_IN, T_OUT, PAD, xor, seal_data
import bitcoin

RULE = ('histories of tool invocations in a scratch directory (make seals, close them over a digest, complete and sign the '
        'transaction as a wallet would, witness from hex or through a stand-in node, verify, show), with one step spoiled in '
        'most histories; files, output and exit status against an independent calculation, in process and as subprocesses. '
        'Non-trivial: distinct (command, outcome, files) steps.')
TOOL = os.path.join(REPO, 'sus-tool.py')
S = {'none': argparse.Namespace()}


def start(mon, job):
    home = os.environ['HOME']
    txs = S['txs'] = {}

    def handler(method, params):
        if method == 'getrawtransaction' and params[0] in txs and params[1] == 0:
            return json.dumps(txs[params[0]])
        raise rpcserver.Refuse(-5, 'No information available about transaction')
    srv = S['server'] = rpcserver.Server(handler)
    os.makedirs(home + '/.bitcoin', exist_ok=True)
    with open(home + '/.bitcoin/bitcoin.conf', 'w') as fd:
        fd.write('# scratch\nrpcuser=u\nrpcpassword=p%d # x\nrpcport=%d\nserver\n' % (job['worker'], srv.port))
    S['auth'] = rpcserver.basic('u', 'p%d' % job['worker'])


def tool(mon, d, args, sub=False):
    """(exit status, stdout, stderr)"""
    mon.event('invocations')
    if 'verifywitness' in args and '-l' not in args:
        # Whether the chain is looked at (it isn't, so far) or not: the witness has to be right
        n = zlib.crc32(repr((args, sorted(listing(d).items()))).encode())
        k = args.index('verifywitness') + 1
        args = args[:k] + ([], [], ['-l'], ['--local'])[n % 4] + args[k:]
    if sub:
        mon.event('subprocesses')
        p = subprocess.run([sys.executable, TOOL] + args, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
        return p.returncode, p.stdout.decode(), p.stderr.decode()
    out, err = io.StringIO(), io.StringIO()
    argv, cwd, level = sys.argv, os.getcwd(), logging.root.level
    sys.argv = [TOOL] + args
    os.chdir(d)
    rc = 0
    g = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                g = runpy.run_path(TOOL, run_name='__main__')
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                if isinstance(e.code, str):
                    err.write(e.code)
                e.__traceback__ = None
            except Exception as e:
                rc = 1
                err.write(repr(e))
                e.__traceback__ = None
    finally:
        sys.argv = argv
        os.chdir(cwd)
        logging.root.setLevel(level)
        bitcoin.SelectParams('mainnet')
    for v in list(vars((g or {}).get('args') or S['none']).values()):     # the files an exiting process would close
        for f in v if isinstance(v, list) else [v]:
            if isinstance(f, io.IOBase):
                f.close()
    g = None
    gc.collect()
    return rc, out.getvalue(), err.getvalue()


def read(d, name):
    with open(os.path.join(d, name), 'rb') as fd:
        return fd.read()


def write(d, name, b):
    with open(os.path.join(d, name), 'wb') as fd:
        fd.write(b)


def listing(d):
    return {os.path.relpath(os.path.join(at, n), d): read(at, n) for at, _, files in sorted(os.walk(d)) for n in sorted(files)}


def seal_hash(op, nonce):
    return pm.sha(T_BTC + pm.sha(seal_data(op, nonce)))


def witness_hash(op, nonce, i, j, tx):
    def part(tag, k):
        return pm.sha(tag + pm.sha(pm.varuint(k) + xor(tx.txid(), PAD)))
    return pm.sha(T_BTCW + pm.sha(seal_hash(op, nonce) + part(T_IN, i) + part(T_OUT, j)))


def history(rng, mon, i, sub=False):
    d = tempfile.mkdtemp(prefix='sus-', dir=os.environ['VERIF_SCRATCH'])
    try:
        _history(rng, mon, d, sub)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def must(mon, d, args, sub, what):
    rc, out, err = tool(mon, d, args, sub)
    mon.check(rc == 0, what + ': exit status %r' % rc, err[-1500:], repr(args)[:600])
    return out


def must_not(mon, d, args, sub, what):
    before = listing(d)
    rc, out, err = tool(mon, d, args, sub)
    mon.check(rc != 0, what + ': exit status 0', out[-500:], repr(args)[:600])
    mon.event('refused')
    after = listing(d)
    for n, b in before.items():
        mon.check(after.get(n) == b, what + ': file %s changed' % n)
    return {n: b for n, b in after.items() if n not in before}


def unguessable(mon, nonce):
    """Nonces are of 128 independent bits, as far as that can be seen"""
    u = unguessable
    v = int.from_bytes(nonce, 'big')
    u.n, u.ones, u.zeros = u.n + 1, u.ones | v, u.zeros | ~v
    parts = {nonce[k:k + 8] for k in range(9)}
    mon.check(len(parts) == 9 and not parts & u.parts, 'parts of nonces repeat', nonce.hex())
    u.parts |= parts
    full = 2**128 - 1
    mon.check(u.n < 60 or (u.ones & full == full and u.zeros & full == full), 'some bits of nonces never change')


unguessable.n, unguessable.ones, unguessable.zeros, unguessable.parts = 0, 0, 0, set()


def _history(rng, mon, d, sub):
    flags = rng.choice(([], [], [], ['-v'], ['-v', '-v'], ['-q'], ['-t'], ['-n']))
    n = rng.choice((1, 1, 2, 3, 5)) if not sub else 1
    ops = []
    for _ in range(n):
        o = btc.MOut(gen.blob(rng, 32), gen.int_in(rng, 0, btc.MASK32))
        if ops and rng.random() < 0.5:      # close to another: outputs of one transaction, ids with a common part
            x = rng.choice(ops)
            k = rng.randrange(32)
            o = rng.choice((btc.MOut(x.h, (x.n + 1) & btc.MASK32), btc.MOut(x.h, x.n ^ (1 << k)), btc.MOut(x.h, x.n ^ (1 << k)),
                            btc.MOut(x.h[:k] + gen.blob(rng, 32 - k), x.n), btc.MOut(gen.blob(rng, 32 - k) + x.h[32 - k:], x.n)))
        if all(o.ser() != x.ser() for x in ops):
            ops.append(o)
    form = rng.choice(('s%d.seal', 's%d.seal', 's%d', '%d.single-use-seal', 'two words %d.seal', 's\u00e9al %d.s\u00e9al', '%d.witness', '.s%d', 's.%d.tar.SEAL', 's%d.', 'part/s%d.seal',
                       'part.of/more than/s%d.seal', 'x' * 200 + '%d.seal', 's=%d:#\'"&*[.seal'))
    names = [form % k for k in range(len(ops))]
    os.makedirs(os.path.dirname(os.path.join(d, names[0])), exist_ok=True)
    nonces = []
    for o, f in zip(ops, names):
        arg = '%s:%d' % (o.h[::-1].hex(), o.n)
        if rng.random() < 0.15:
            arg = '%s:%0*d' % (rng.choice((o.h[::-1].hex(), o.h[::-1].hex().upper())), rng.choice((2, 3, 10, 12)), o.n)
        must(mon, d, flags + ['mkseal', arg, f], sub, 'mkseal')
        b = read(d, f)
        body = o.ser()
        mon.check(len(b) == 1 + len(body) + 16 and b[:1 + len(body)] == pm.varuint(len(body)) + body or
                  (b[:-16].endswith(body) and len(b) <= len(body) + 18), 'seal file does not hold the outpoint', b.hex(), body.hex())
        nonces.append(b[-16:])
        mon.state('seal', b)
        unguessable(mon, b[-16:])
    mon.check(len(set(nonces)) == len(nonces), 'two seals made with the same nonce', [x.hex() for x in nonces])
    if n == 1 and rng.random() < 0.3:      # the same outpoint again is another seal
        must(mon, d, ['mkseal', '%s:%d' % (ops[0].h[::-1].hex(), ops[0].n), 'again.seal'], sub, 'mkseal')
        mon.check(read(d, 'again.seal') != read(d, names[0]), 'two seals on one outpoint are the same')
        os.unlink(os.path.join(d, 'again.seal'))
    for o, f, nonce in zip(ops, names, nonces):
        out = must(mon, d, ['sealinfo', f], sub, 'sealinfo')
        mon.check(seal_hash(o, nonce).hex() in out.split(), 'sealinfo does not show the seal hash', out)
        mon.check('%s:%d' % (o.h[::-1].hex(), o.n) in out.split(), 'sealinfo does not show the outpoint', out)

    # close
    h = gen.blob(rng, 32)
    meth = rng.choice((None, '--op-return', '--p2sh', '--p2pkh'))
    order = list(range(len(ops)))
    rng.shuffle(order)
    out = must(mon, d, flags + ['mkclosetx', h.hex()] + [names[k] for k in order] + ([meth] if meth else []), sub, 'mkclosetx')
    raw = bytes.fromhex(out.strip())
    p = btc.parse_tx(raw)
    mon.check(p is not None and p[1] == len(raw), 'mkclosetx printed no transaction', out)
    tx = p[0]
    mon.eq([v[:2] for v in tx.vin], [(ops[k].h, ops[k].n) for k in order], 'inputs of the closing transaction')
    mon.eq([s for _, s in tx.vout], [M.forms(h)[{None: 0, '--op-return': 0, '--p2sh': 1, '--p2pkh': 2}[meth]]],
           'outputs of the closing transaction')
    mon.state('template', raw)
    # completed by a wallet: commitment stays the first output; inputs may be reordered
    full = tx.copy()
    full.vin = [(a, b, gen.blob(rng, 20), q) for a, b, _, q in full.vin] + [btc.gen_vin(rng, 60) for _ in range(rng.choice((0, 1, 2, 0, 1, 2, 0, 1, 300, 600) if not sub else (0, 1, 2)))]
    if rng.random() < 0.5:
        rng.shuffle(full.vin)
    full.vout += [btc.gen_vout(rng, 60) for _ in range(rng.randint(0, 2))]
    if rng.random() < 0.2:
        full = tx
    txid = full.txid()[::-1].hex()
    if rng.random() < 0.5:
        S['txs'][txid] = full.ser().hex()
        how = ['--txid', txid]
    else:
        how = ['--tx', full.ser().hex()]
    k0 = len(S['server'].requests)
    must(mon, d, flags + ['mkwitness'] + how + names, sub, 'mkwitness')
    for r in S['server'].requests[k0:]:
        mon.eq(r['headers'].get('authorization'), S['auth'], 'credentials sent to the node')
    wrong = bytearray(h)
    wrong[rng.randrange(32)] ^= 1 << rng.randrange(8)
    wrong = bytes(wrong)
    for k, (o, f, nonce) in enumerate(zip(ops, names, nonces)):
        wf = f + '.witness'
        mon.check(os.path.exists(os.path.join(d, wf)), 'no witness file for ' + f)
        mon.state('witness', read(d, wf))
        must(mon, d, ['verifywitness', wf], sub, 'verifywitness')
        sid = seal_hash(o, nonce)
        opts = []
        if rng.random() < 0.4:
            opts += ['--seal-file', f]
        if rng.random() < 0.4:
            opts += ['--seal-id', sid.hex()]
        if rng.random() < 0.2:
            opts += ['-l']
        must(mon, d, ['verifywitness', '-d', h.hex()] + opts + [wf], sub, 'verifywitness of the digest')
        mon.event('seals closed')
        must_not(mon, d, ['verifywitness', '-d', wrong.hex()] + opts + [wf], sub, 'verifywitness of another digest')
        must_not(mon, d, ['verifywitness', '-d', h[::-1].hex(), wf], sub, 'verifywitness of the reversed digest') if h != h[::-1] else None
        bad = bytearray(sid)
        bad[rng.randrange(32)] ^= 1
        must_not(mon, d, ['verifywitness', '-d', h.hex(), '--seal-id', bytes(bad).hex(), wf], sub, 'verifywitness of another seal id')
        if len(ops) > 1:
            must_not(mon, d, ['verifywitness', '--seal-file', names[(k + 1) % len(ops)], wf], sub, 'verifywitness of another seal')
        for _ in range(2 if not sub else 1):
            combined(rng, mon, d, sub, names, wf, k, h, wrong, sid, bytes(bad))
        idx = next(z for z, v in enumerate(full.vin) if v[:2] == (o.h, o.n))
        out = must(mon, d, ['witnessinfo', wf], sub, 'witnessinfo').split()
        mon.check(txid in out, 'witnessinfo does not show the transaction', txid, out)
        mon.check(sid.hex() in out, 'witnessinfo does not show the seal', sid.hex(), out)
        mon.check('%s:%d' % (o.h[::-1].hex(), o.n) in out, 'witnessinfo does not show the outpoint', out)
        mon.check(witness_hash(o, nonce, idx, 0, full).hex() in out, 'witnessinfo does not show the witness hash', out)
    spoil(rng, mon, d, sub, ops, names, nonces, h, full, how)


def combined(rng, mon, d, sub, names, wf, k, h, wrong, sid, badid):
    """Any combination of right and wrong options: success exactly if all that are given are right"""
    opts, ok = [], True
    p = rng.choice((0.15, 0.5))
    for flag, good, bads in (('-d', h.hex(), [wrong.hex()]), ('--seal-id', sid.hex(), [badid.hex(), sid[::-1].hex()]),
                             ('--seal-file', names[k], [x for x in names if x != names[k]] or [None])):
        if rng.random() < 0.75:
            v = good
            if rng.random() < p and bads[0] is not None:
                v, ok = rng.choice(bads), False
            opts.append([flag, v])
    if rng.random() < 0.3:
        opts.append(['-l'])
    opts.append([wf])
    rng.shuffle(opts)
    mon.state('options', (ok, sorted(x[0] for x in opts if x[0][:1] == '-')))
    (must if ok else must_not)(mon, d, ['verifywitness'] + sum(opts, []), sub, 'verifywitness ' + repr(opts))


def spoil(rng, mon, d, sub, ops, names, nonces, h, full, how):
    """Commands that must be refused, and leave everything as it was"""
    f, o = names[0], ops[0]
    wf = f + '.witness'
    for _ in range(4 if not sub else 1):
        r = rng.randrange(17)
        mon.state('spoiled', r)
        if r == 0:
            must_not(mon, d, ['mkseal', '%s:%d' % (o.h[::-1].hex(), o.n), f], sub, 'mkseal over an existing file')
        elif r == 1:
            bad = rng.choice((o.h.hex(), o.h.hex() + ':', ':1', o.h.hex()[:-2] + ':1', o.h.hex() + '00:1', 'zz' * 32 + ':1', o.h.hex() + ':1:2',
                              o.h.hex() + ':-1', o.h.hex() + ':%d' % 2**32, o.h.hex() + ':x', '', o.h.hex()[:-1] + ':1'))
            must_not(mon, d, ['mkseal', bad, 'new.seal'], sub, 'mkseal of %r' % bad)
            with contextlib.suppress(OSError):
                os.unlink(os.path.join(d, 'new.seal'))
        elif r == 2:
            bad = rng.choice((h.hex()[:-2], h.hex() + '00', 'g' * 64, '', h.hex()[:-1], h[:20].hex()))
            must_not(mon, d, ['mkclosetx', bad, f], sub, 'mkclosetx over %r' % bad)
            must_not(mon, d, ['verifywitness', '-d', bad, wf], sub, 'verifywitness of %r' % bad)
        elif r == 3:
            again = f
            if rng.random() < 0.5:
                # The same seal under another name
                again = os.path.join(d, 'again')
                with open(os.path.join(d, f), 'rb') as src, open(again, 'wb') as dst:
                    dst.write(src.read())
            must_not(mon, d, ['mkclosetx', h.hex(), f, again], sub, 'mkclosetx of a duplicate seal')
            must_not(mon, d, ['mkclosetx', h.hex()] + names + [again], sub, 'mkclosetx of a duplicate seal')
        elif r == 4:
            must_not(mon, d, ['mkwitness'] + how + [f], sub, 'mkwitness over an existing witness')
        elif r == 5:
            write(d, 'other.seal', read(d, f)[:-16] + gen.blob(rng, 16))
            t = btc.change_tx(rng, full)
            t.vin = [v for v in t.vin if v[:2] != (o.h, o.n)]
            new = must_not(mon, d, ['mkwitness', '--tx', t.ser().hex(), 'other.seal'], sub, 'mkwitness from a transaction without the spend')
            mon.check('other.seal.witness' not in new, 'witness written for a seal that was not closed')
            os.unlink(os.path.join(d, 'other.seal'))
        elif r == 6:
            raw = full.ser()
            must_not(mon, d, ['mkwitness', '--tx', rng.choice((raw[:-1], raw + b'\x00', raw[1:])).hex(), f], sub, 'mkwitness of a damaged transaction')
        elif r == 7:
            must_not(mon, d, ['mkwitness', '--txid', gen.blob(rng, 32).hex(), f], sub, 'mkwitness of an unknown transaction')
        elif r == 8:
            b = read(d, f)
            for cmd in (['sealinfo', 'bad.seal'], ['mkclosetx', h.hex(), 'bad.seal'], ['mkwitness', '--tx', full.ser().hex(), 'bad.seal'],
                        ['verifywitness', '--seal-file', 'bad.seal', wf]):
                write(d, 'bad.seal', rng.choice((b[:-1], b + b'\x00', b'', b[:rng.randrange(len(b))])))
                new = must_not(mon, d, cmd, sub, cmd[0] + ' of a damaged seal file')
                mon.check(not new, 'files written from a damaged seal', list(new))
            os.unlink(os.path.join(d, 'bad.seal'))
        elif r == 9:
            b = read(d, wf)
            write(d, 'bad.witness', rng.choice((b[:-1], b + b'\x00', b'', b[:rng.randrange(len(b))])))
            must_not(mon, d, ['verifywitness', 'bad.witness'], sub, 'verifywitness of a damaged witness')
            must_not(mon, d, ['witnessinfo', 'bad.witness'], sub, 'witnessinfo of a damaged witness')
            os.unlink(os.path.join(d, 'bad.witness'))
        elif r == 10:
            # a damaged witness never verifies for this seal and digest, unless the damage cannot matter
            b = read(d, wf)
            body = o.ser()
            k = b.find(body)
            mon.check(k >= 0, 'witness does not hold the outpoint')
            bad = bytearray(b)
            bad[k + rng.randrange(len(body))] ^= 1 << rng.randrange(8)
            write(d, 'bad.witness', bytes(bad))
            must_not(mon, d, ['verifywitness', '-d', h.hex(), 'bad.witness'], sub, 'verifywitness with the outpoint of the seal changed')
            os.unlink(os.path.join(d, 'bad.witness'))
        elif r == 11:
            b = read(d, wf)
            bad = bytearray(b)
            bad[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            write(d, 'bad.witness', bytes(bad))
            must_not(mon, d, ['verifywitness', '-d', h.hex(), '--seal-file', f, '--seal-id', seal_hash(o, nonces[0]).hex(), 'bad.witness'],
                     sub, 'verifywitness with one bit changed') if matters(bytes(bad), b, o, h, full) else None
            os.unlink(os.path.join(d, 'bad.witness'))
        elif r == 12:
            must_not(mon, d, [], sub, 'no command')
        elif r == 15:
            # one of several seals is not closed by the transaction: no witness for it, whatever its place in the list
            copies = []
            for z, f2 in enumerate(names):
                write(d, 'copy%d.seal' % z, read(d, f2))
                copies.append('copy%d.seal' % z)
            open_op = rng.choice((btc.MOut(o.h, (o.n + 1) & btc.MASK32), btc.MOut(o.h[::-1], o.n), btc.MOut(gen.twin(rng, o.h), o.n)))
            if any(v[:2] == (open_op.h, open_op.n) for v in full.vin):
                open_op = btc.MOut(gen.blob(rng, 32), 7)
            body = open_op.ser()
            src = read(d, f)
            write(d, 'open.seal', src.replace(o.ser(), body))
            if body in read(d, 'open.seal'):
                args = copies + ['open.seal']
                rng.shuffle(args)
                new = must_not(mon, d, ['mkwitness'] + how + args, sub, 'mkwitness of an open seal among closed ones')
                mon.check('open.seal.witness' not in new, 'witness written for a seal that was not closed')
                for z, f2 in enumerate(copies):
                    w = new.get(f2 + '.witness')
                    mon.check(w is None or w == read(d, names[z] + '.witness'), 'witness written beside a refusal is not the right one')
            for fn in os.listdir(d):
                if fn.startswith(('copy', 'open.')):
                    os.unlink(os.path.join(d, fn))
        elif r == 16:
            # a seal on the same outpoint with another nonce is another seal
            write(d, 'twin.seal', read(d, f)[:-16] + xor16(rng, nonces[0]))
            must_not(mon, d, ['verifywitness', '-d', h.hex(), '--seal-file', 'twin.seal', wf], sub, 'verifywitness of a twin of the seal')
            must(mon, d, ['mkwitness'] + how + ['twin.seal'], sub, 'mkwitness of a twin')
            must(mon, d, ['verifywitness', '-d', h.hex(), '--seal-file', 'twin.seal', 'twin.seal.witness'], sub, 'verifywitness of the twin')
            must_not(mon, d, ['verifywitness', '--seal-file', f, 'twin.seal.witness'], sub, 'verifywitness of the twin for the seal')
            for fn in ('twin.seal', 'twin.seal.witness'):
                os.unlink(os.path.join(d, fn))
        elif r == 13:
            t = full.copy()
            t.vout[0] = (t.vout[0][0], rng.choice(M.near_scripts(rng, h)))
            if rng.random() < 0.5:
                t.vout = [(0, b'\x51')] + full.vout      # the commitment is not the first output
            write(d, 'other.seal', read(d, f))
            must(mon, d, ['mkwitness', '--tx', t.ser().hex(), 'other.seal'], sub, 'mkwitness')
            must(mon, d, ['verifywitness', 'other.seal.witness'], sub, 'verifywitness of a spend')
            must_not(mon, d, ['verifywitness', '-d', h.hex(), 'other.seal.witness'], sub, 'verifywitness of a spend with another commitment')
            for n in ('other.seal', 'other.seal.witness'):
                os.unlink(os.path.join(d, n))
        else:
            must_not(mon, d, ['mkwitness', f], sub, 'mkwitness without a transaction')
            must_not(mon, d, ['mkwitness'] + how + ['missing.seal'], sub, 'mkwitness of a missing file')
            must_not(mon, d, ['mkclosetx', h.hex()], sub, 'mkclosetx of nothing')


def xor16(rng, nonce):
    k = rng.randrange(16)
    return nonce[:k] + bytes([nonce[k] ^ 1 << rng.randrange(8)]) + nonce[k + 1:]


def matters(bad, good, o, h, full):
    """Bits of the transaction copies that belong to no claim could change in both copies; with one bit flipped
    the two transactions differ, or the seal, or an index: always refused, except in fields both proofs ignore."""
    ser = full.ser()
    k = good.find(ser)
    if k < 0 or good.find(ser, k + 1) < 0:
        return False            # a single shared copy: other bits may legitimately be free
    return True


def chains(rng, mon, i):
    """The node asked is the one of the chain selected, where the configuration names no port"""
    d = tempfile.mkdtemp(prefix='sus-', dir=os.environ['VERIF_SCRATCH'])
    home = os.environ['HOME']
    if 'other' not in S:
        known = S['other_txs'] = {}

        def handler(method, params):
            if method == 'getrawtransaction' and params[0] in known and params[1] == 0:
                return json.dumps(known[params[0]])
            raise rpcserver.Refuse(-5, 'No information available about transaction')
        S['other'] = rpcserver.Server(handler)
    conf = home + '/.bitcoin/bitcoin.conf'
    with open(conf) as fd:
        old = fd.read()
    ports = bitcoin.MainParams.RPC_PORT, bitcoin.TestNetParams.RPC_PORT
    try:
        with open(conf, 'w') as fd:
            fd.write('rpcuser=u\nrpcpassword=p\n')
        # stand-ins for the nodes at 8332 and 18332
        bitcoin.MainParams.RPC_PORT, bitcoin.TestNetParams.RPC_PORT = S['server'].port, S['other'].port
        for _ in range(3):
            testnet = rng.random() < 0.5
            o = btc.MOut(gen.blob(rng, 32), gen.int_in(rng, 0, btc.MASK32))
            h = gen.blob(rng, 32)
            write(d, 'a.seal', b'\x00' + pm.varuint(36) + o.ser() + gen.blob(rng, 16))
            t = btc.MTx(1, [(o.h, o.n, b'', btc.MASK32)], [(0, b'\x6a\x20' + h)], 0)
            txid = t.txid()[::-1].hex()
            (S['other_txs'] if testnet else S['txs'])[txid] = t.ser().hex()
            flags = ['-t'] if testnet else []
            S['server'].requests.clear()
            S['other'].requests.clear()
            must_not(mon, d, ([] if testnet else ['-t']) + ['mkwitness', '--txid', txid, 'a.seal'], False, 'mkwitness of a transaction of another chain')
            mon.check(not os.path.exists(os.path.join(d, 'a.seal.witness')), 'a witness was made of a transaction of another chain')
            must(mon, d, flags + ['mkwitness', '--txid', txid, 'a.seal'], False, 'mkwitness')
            mon.eq((len(S['server'].requests), len(S['other'].requests)), (1, 1), 'requests to the nodes of the chains')
            must(mon, d, flags + ['verifywitness', '-d', h.hex(), 'a.seal.witness'], False, 'verifywitness')
            mon.state('chain', (testnet, txid))
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
    finally:
        bitcoin.MainParams.RPC_PORT, bitcoin.TestNetParams.RPC_PORT = ports
        with open(conf, 'w') as fd:
            fd.write(old)
        shutil.rmtree(d, ignore_errors=True)


SUITES = [Suite('histories', history, 200, 8000), Suite('chains', chains, 80, 1000), Suite('processes', lambda r, m, i: history(r, m, i, True), 8, 60)]

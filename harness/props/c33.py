"""Memory safety of the calls into OpenSSL"""
import copy, ctypes, gc, json, os, re, signal, subprocess, sys
import xml.etree.ElementTree as ET
from harness.worker import Suite
from harness import gen
from harness.models import btc, pm, secp, spend, script as S
from harness.props import c29, c32

RULE = ('the key code run in processes of their own over keys, hostile encodings, signatures, shared secrets and scripts: under '
        'valgrind memcheck (no invalid access, bad free or use of uninitialised memory), with every allocation of the library on '
        'high pages of its own that vanish when freed (truncated pointers and use after free crash), and with memory use watched '
        'over many key lifetimes. Non-trivial: distinct operations run, by kind.')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IGNORED = re.compile('^(Leak_|UninitCondition$|UninitValue$|SyscallParam$)')


def der_key(rng):
    """A private key encoding, often damaged"""
    s = c32.gen_secret(rng)
    pt = secp.point(s)
    oid = rng.choice((b'\x2b\x81\x04\x00\x0a',) * 4 + (b'\x2b\x81\x04\x00\x0b', b'\x2b\x81\x04\x00\x22', b'\x2a\x86\x48\xce\x3d\x03\x01\x07'))
    pub = secp.encode(pt, rng.choice('cu'))
    if rng.random() < 0.2:
        pub = c29.gen_pub(rng)[:65] or b'\x02'
    a0 = b'\xa0' + bytes([2 + len(oid)]) + b'\x06' + bytes([len(oid)]) + oid
    a1 = b'\xa1' + bytes([4 + len(pub)]) + b'\x03' + bytes([2 - 1 + len(pub)]) + b'\x00' + pub
    a1 = b'\xa1' + bytes([3 + len(pub)]) + a1[2:]
    key = b'\x04' + bytes([len(s)]) + s
    if rng.random() < 0.1:
        key = rng.choice((b'\x04\x00', b'\x04\x01\x00', b'\x04\x21' + s + b'a', b'\x04\x20' + b'\xff' * 32))
    body = b'\x02\x01\x01' + key + rng.choice((a0 + a1, a0 + a1, a0, a1, b''))
    der = b'\x30' + (bytes([len(body)]) if len(body) < 128 else b'\x81' + bytes([len(body)])) + body
    return gen.mutate(rng, der) if rng.random() < 0.4 else der


def step(rng):
    what = rng.choice(('new', 'copy', 'copy', 'copy der', 'copy pub', 'ecdh', 'get_pubkey', 'get_privkey', 'verify', 'sign', 'set_compressed',
                       'set_secretbytes', 'set_secretbytes', 'set_privkey', 'set_privkey', 'set_pubkey', 'set_pubkey'))
    arg = b''
    if what == 'verify':
        arg = c29.gen_sig(rng)[:-1]
    elif what == 'sign':
        arg = gen.blob(rng, rng.choice((32, 32, 32, 31, 0)))
    elif what == 'set_secretbytes':
        arg = rng.choice((c32.gen_secret(rng), c32.gen_secret(rng), bytes(32), b'\xff' * 32, gen.data(rng, 70, 33)))
    elif what == 'set_privkey':
        arg = der_key(rng) if rng.random() < 0.9 else gen.data(rng, 200, 40)
    elif what == 'set_pubkey':
        arg = spend.key(rng).pub if rng.random() < 0.4 else c29.gen_pub(rng)
    return [what, rng.randrange(3), rng.randrange(3), arg.hex()]


def vectors(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        s = c32.gen_secret(rng)
        pt = secp.point(s)
        h = gen.blob(rng, 32)
        if r < 0.25:
            comp = rng.random() < 0.5
            out.append(['key', s.hex(), comp, secp.encode(pt, 'c' if comp else 'u').hex(), h.hex()])
        elif r < 0.45:
            p = secp.encode(pt, rng.choice('cuh')) if rng.random() < 0.3 else c29.gen_pub(rng)
            if p == b'\x00':
                continue
            out.append(['pub', p.hex(), secp.decode(p) is not None])
        elif r < 0.65:
            k = spend.key(rng)
            if rng.random() < 0.4:
                sig = k.sign(h)
                out.append(['verify', k.pub.hex(), h.hex(), sig.hex(), True])
            else:
                sig = c29.gen_sig(rng)[:-1]
                out.append(['verify', rng.choice((k.pub, c29.gen_pub(rng))).hex(), rng.choice((h, h, b'', gen.data(rng, 100, 40))).hex(), sig.hex(), None])
        elif r < 0.8:
            q = rng.random()
            out.append(['priv', s.hex(), rng.choice((1, 2, 30, 100)) if q < 0.3 else 0, rng.randrange(300) if q > 0.6 else None, secp.encode(pt, 'c').hex()])
        elif r < 0.88:
            b = c32.gen_secret(rng)
            out.append(['ecdh', s.hex(), b.hex(), secp.encode(secp.point(b), rng.choice('cu')).hex(), secp.ecdh(s, secp.point(b)).hex()])
        elif r < 0.93:
            out.append(['sequence', [step(rng) for _ in range(rng.choice((3, 8, 20)))]])
        elif r < 0.98:
            m = btc.gen_tx(rng, 1, 1, 30)
            stack = [c29.gen_sig(rng), c29.gen_pub(rng)]
            if rng.random() < 0.5:
                k = spend.key(rng)
                stack = [k.sign(h) + b'\x01', k.pub]
            prog = rng.choice((b'\xac', b'\xad', b'\x6e\xac\x75\xac', b'\x51\x7c\x51\xae', b'\x76\xac'))
            out.append(['eval', [x.hex() for x in stack], prog.hex(), m.ser().hex(), 0])
        else:
            n2 = rng.choice((0, 1, 16, 31, 33, 64, 200))
            out.append(['length', gen.blob(rng, n2).hex()])
    return out


def launch(mon, cmd, env, vec, what, limit):
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'vectors.json')
    with open(path, 'w') as fd:
        json.dump(vec, fd)
    e = dict(os.environ)
    e.update(env)
    p = subprocess.Popen(cmd + [sys.executable, '-B', os.path.join(HERE, 'ffi_driver.py'), path], env=e, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        mon.fail('%s: no answer within %ds' % (what, limit))
    res = [l for l in out.decode('utf8', 'replace').splitlines() if l.startswith('RESULT ')]
    if p.returncode < 0:
        mon.fail('%s: died with signal %d' % (what, -p.returncode), err.decode('utf8', 'replace')[-1500:])
    if p.returncode or not res:
        mon.fail('%s: exit status %d' % (what, p.returncode), err.decode('utf8', 'replace')[-1500:])
    res = json.loads(res[0][7:])
    mon.check(not res['bad'], '%s: %s' % (what, '; '.join(res['bad'])))
    for k, n in res['count'].items():
        mon.event('%s: %s' % (what, k), n)
    for op in vec:
        mon.state(what + ': ' + op[0], json.dumps(op))


def memcheck(rng, mon, i):
    vec = vectors(rng, 60 if mon.tier == 'quick' else 250)
    xml = os.path.join(os.environ['VERIF_SCRATCH'], 'valgrind.xml')
    launch(mon, ['valgrind', '--quiet', '--leak-check=no', '--show-leak-kinds=none', '--xml=yes', '--xml-file=' + xml, '--num-callers=20'],
           dict(PYTHONMALLOC='malloc'), vec, 'valgrind', 600)
    try:
        root = ET.parse(xml).getroot()
    except ET.ParseError as e:
        raise OSError('valgrind output unreadable: %s' % e)
    kinds = {}
    for err in root.iter('error'):
        kind = err.findtext('kind')
        kinds[kind] = kinds.get(kind, 0) + 1
        if IGNORED.match(kind):
            # only when it concerns the library the code calls into
            if kind.startswith('Leak_') or not any('libcrypto' in (f.findtext('obj') or '') or 'libssl' in (f.findtext('obj') or '') for f in err.iter('frame')):
                continue
        frames = ['%s (%s)' % (f.findtext('fn'), os.path.basename(f.findtext('obj') or '')) for f in err.iter('frame')][:12]
        what = err.findtext('what') or err.findtext('xwhat/text') or ''
        mon.fail('valgrind: %s: %s' % (kind, what), ' < '.join(frames))
    mon.check(root.find('.//status/state') is not None, 'harness: valgrind did not finish')
    mon.note('other valgrind reports', kinds)
    mon.event('valgrind runs')


HIGH = dict(MALLOC_MMAP_THRESHOLD_='64', MALLOC_MMAP_MAX_='50000', MALLOC_PERTURB_='165')


def high(rng, mon, i):
    vec = vectors(rng, 150)
    launch(mon, [], HIGH, vec, 'high pages', 300)
    mon.event('high page runs')


def fill(rng, mon, i):
    """Ordinary heap, freed memory overwritten"""
    vec = vectors(rng, 150)
    launch(mon, [], dict(MALLOC_PERTURB_=str(rng.randrange(1, 256)), MALLOC_CHECK_='3', MALLOC_ARENA_MAX='1'), vec, 'overwritten heap', 300)
    mon.event('overwritten heap runs')


def rss():
    with open('/proc/self/statm') as fd:
        return int(fd.read().split()[1]) * os.sysconf('SC_PAGE_SIZE')


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


try:
    _mallinfo2 = ctypes.CDLL(None).mallinfo2
    _mallinfo2.restype = Mallinfo2
except AttributeError:
    _mallinfo2 = None


def in_use():
    """Bytes the C library has handed out"""
    gc.collect()
    if _mallinfo2 is None:
        return 0
    m = _mallinfo2()
    return m.uordblks + m.hblkhd


def growth(rng, mon, i):
    """Memory does not grow with the number of keys made and dropped"""
    from bitcoin.core.key import CECKey, CPubKey
    from bitcoin.wallet import CKey
    s = c32.gen_secret(rng)
    pub = secp.encode(secp.point(s), 'c')
    k = CKey(s)
    ec = CECKey()
    ec.set_secretbytes(s)
    ec.set_compressed(True)
    der = ec.get_privkey()
    o = CECKey()
    o.set_pubkey(pub)
    h = bytes(32)
    sig = k.sign(h)

    def again():
        e = CECKey()
        e.set_privkey(der)
    e0 = CECKey()
    e0.set_privkey(der)
    blank = CECKey()

    def refused():
        for f in (blank.get_pubkey, lambda: ec.get_raw_ecdh_key(blank), lambda: k.sign(b'short'), lambda: CKey(b'short'), lambda: k.sign('x' * 32)):
            try:
                f()
            except Exception:
                pass

    kinds = [('keys', lambda: CKey(s), 12000), ('public keys', lambda: CPubKey(pub), 4000), ('invalid public keys', lambda: CPubKey(b'\x05' * 33), 12000),
             ('signatures', lambda: k.sign(h), 8000), ('verdicts', lambda: k.pub.verify(h, sig), 4000), ('shared secrets', lambda: ec.get_raw_ecdh_key(o), 4000),
             ('decoded private keys', again, 4000), ('copied keys', lambda: copy.copy(ec).get_pubkey(), 4000),
             ('copied public keys', lambda: copy.copy(o).get_pubkey(), 4000), ('copied decoded keys', lambda: copy.copy(e0).get_privkey(), 4000),
             ('public keys set again', lambda: o.set_pubkey(pub), 8000), ('private keys set again', lambda: e0.set_privkey(der), 8000),
             ('secrets set again', lambda: e0.set_secretbytes(s), 8000),
             ('undecodable private keys', lambda: e0.set_privkey(der[:-3]), 4000), ('keys that cannot be decoded', lambda: o.set_pubkey(pub[:-1]), 12000),
             ('unreadable signatures', lambda: k.pub.verify(h, sig[:-1]), 8000), ('other verdicts', lambda: k.pub.verify(pub[1:], sig), 4000),
             ('refused operations', refused, 8000),
             ('encoded private keys', lambda: ec.get_privkey(), 20000), ('encoded public keys', lambda: ec.get_pubkey(), 20000)]
    name, fn, n = kinds[i % len(kinds)]
    for _ in range(n // 8):
        fn()
    base, held = rss(), in_use()
    for _ in range(n):
        fn()
    kept = in_use() - held
    grown = rss() - base
    mon.check(kept < 2 * n + 4096, '%d %s made and dropped, and %d bytes not given back' % (n, name, kept))
    mon.note('not given back: ' + name, kept)
    mon.check(grown < max(256 << 10, 32 * n), '%d %s made and dropped, and %d bytes more in use' % (n, name, grown))
    mon.event(name, n)
    mon.note('growth: ' + name, grown)
    mon.state('growth', name)



def objects(rng, mon, i):
    """Nor with the number of other objects"""
    from bitcoin.core import CTransaction, CBlock
    from bitcoin.core.script import CScript, SignatureHash
    from bitcoin.core.scripteval import EvalScript, VerifyScript
    from bitcoin.core.serialize import Hash160
    from bitcoin.bloom import CBloomFilter
    from bitcoin.messages import msg_tx, MsgSerializable
    from bitcoin.wallet import P2PKHBitcoinAddress, CBitcoinAddress
    from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof
    from proofchains.core.uniquebits.singleuseseal import BitcoinSingleUseSeal, BitcoinSealWitness, FakeSealWitness
    from proofmarshal.bits import Bits
    count = [rng.getrandbits(60)]
    base_tx = btc.gen_tx(rng, 2, 2, 30)
    base_block = btc.gen_block(rng, 3)
    classes = tree_classes()

    def fresh():
        count[0] += 1
        return pm.sha(b'%d' % count[0])

    def tx():
        b = bytearray(base_tx.ser())
        b[5:37] = fresh()
        t = CTransaction.deserialize(bytes(b))
        t.GetHash(), hash(t), repr(t), t == t, SignatureHash(CScript([fresh()]), t, 0, 1)

    def block():
        b = bytearray(base_block.ser())
        b[4:36] = fresh()
        o = CBlock.deserialize(bytes(b))
        o.GetHash(), hash(o), o.get_header().GetHash(), o.calc_merkle_root()

    def script():
        h = fresh()
        c = CScript([h, h[:20], 5, 0xac])
        list(c), repr(c), c.to_p2sh_scriptPubKey(), c.GetSigOpCount(True), c.is_valid()
        t = CTransaction()
        for prog in (c, CScript(h), CScript([h, 0x75]), CScript([h, h, h, 0xac])):
            try:
                EvalScript([], prog, t, 0)
            except Exception:
                pass
            try:
                VerifyScript(CScript([h]), prog, t, 0)
            except Exception:
                pass

    def address():
        a = P2PKHBitcoinAddress.from_bytes(fresh()[:20])
        CBitcoinAddress(str(a)).to_scriptPubKey(), Hash160(fresh())
        try:
            CBitcoinAddress(fresh().hex())
        except Exception:
            pass

    def filters():
        f = CBloomFilter(10, 0.01, 1, 0)
        f.insert(fresh())
        CBloomFilter.deserialize(f.serialize()).contains(fresh())

    def message():
        b = bytearray(base_tx.ser())
        b[5:37] = fresh()
        m = msg_tx()
        m.tx = CTransaction.deserialize(bytes(b))
        MsgSerializable.from_bytes(m.to_bytes())

    def seal():
        h = fresh()
        w = FakeSealWitness.from_hash(h)
        p = w.prune()
        p.verify_hash(h), p.hash
        FakeSealWitness.deserialize(p.serialize()).hash
        FakeSealWitness.deserialize(w.serialize()).hash
        b = bytearray(base_tx.ser())
        b[5:37] = h
        t = CTransaction.deserialize(bytes(b))
        tp = TxProof(tx=t)
        w = BitcoinSealWitness(seal=BitcoinSingleUseSeal(outpoint=t.vin[0].prevout, nonce=h[:16]), txinproof=TxInProof(i=0, txproof=tp), txoutproof=TxOutProof(i=0, txproof=tp))
        p = w.prune()
        p.verify(), w.verify(), hash(w), repr(w)
        BitcoinSealWitness.deserialize(p.serialize()).verify()

    def bits():
        b = Bits.from_bytes(fresh())
        b[3:77].common_prefix(b), b == b[:], repr(b), b.startswith(b[:5])

    def mmr():
        M = classes[0]
        m = M([fresh()[0] for _ in range(5)]).append(3)
        p = m.prune()
        p[4], p.hash, len(p), m[1:4].hash, m == p
        M.deserialize(p.serialize())[4]

    def tree():
        T = classes[1]
        a = fresh()
        t = T([(a[k:k + 4], a[k + 4:k + 8]) for k in range(8)])
        p = t.prune()
        p[a[2:6]], p.hash, t.remove(a[:4]).issubset(t), hash(p)
        T.deserialize(p.serialize())[a[2:6]]

    kinds = [('transactions', tx, 1500), ('blocks', block, 500), ('scripts', script, 600), ('addresses', address, 1500), ('filters', filters, 600),
             ('messages', message, 1000), ('seals', seal, 400), ('bit arrays', bits, 600), ('mountain ranges', mmr, 250), ('trees', tree, 150)]
    name, fn, n = kinds[i % len(kinds)]
    grown = []
    for _ in range(3):      # what is kept up to some limit is not a leak
        gc.collect()
        base, held = sys.getallocatedblocks(), in_use()
        for _ in range(n):
            fn()
        gc.collect()
        grown.append((sys.getallocatedblocks() - base, in_use() - held))
    mon.check(grown[-1][0] < n // 4 + 50, '%d %s made and dropped, and %d objects not given back' % (n, name, grown[-1][0]))
    mon.check(grown[-1][1] < 16 * n + 4096, '%d %s made and dropped, and %d bytes not given back' % (n, name, grown[-1][1]))
    mon.event(name, 3 * n)
    mon.note('not given back: ' + name, list(grown[-1]))
    mon.state('growth', name)


def tree_classes():
    from proofmarshal.proof import HashTag
    from proofmarshal.serialize import UInt8, FixedBytes
    from proofmarshal.bits import Bits
    from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
    from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass

    @make_mmr_subclass
    class M(MerkleMountainRange):
        HASHTAG = HashTag('7f43a8a8-2d45-4e3b-9f0c-0d0f7f4a6b11')
        VALUE_SERIALIZER = UInt8

    @make_MerbinnerTree_subclass
    class T(MerbinnerTree):
        HASHTAG = HashTag('7f43a8a8-2d45-4e3b-9f0c-0d0f7f4a6b12')
        KEY_SERIALIZER = FixedBytes(4)
        VALUE_SERIALIZER = FixedBytes(4)

        @staticmethod
        def key2prefix(key):
            return Bits.from_bytes(key)
    return M, T


SUITES = [Suite('memcheck', memcheck, 8, 40), Suite('high', high, 8, 200), Suite('fill', fill, 8, 200), Suite('growth', growth, 20, 40), Suite('objects', objects, 10, 20)]

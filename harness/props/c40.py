"""Threads sharing values"""
import hashlib, os, random, sys, threading, time
import bitcoin
from harness.worker import Suite
from harness import gen
from harness.monitor import REPO, Violation, short
from harness.models import btc, pm, prooflab, secp, spend, trees, script as S
from harness.props import c15, c20
from harness.props.c34 import check58, enc
from bitcoin import base58
from bitcoin.core import CheckTransaction, CheckTransactionError, CMutableTransaction, CTransaction, CBlock, ValidationError
from bitcoin.core.key import CPubKey
from bitcoin.core.script import CScript, SignatureHash
from bitcoin.core.scripteval import VerifyScript, EvalScript, EvalScriptError, SCRIPT_VERIFY_P2SH
from bitcoin.messages import MsgSerializable, msg_ping, msg_tx
from bitcoin.wallet import CKey, CBitcoinAddress
from proofmarshal.proof import PrunedError
from proofchains.core.bitcoin import TxProof
from proofchains.core.uniquebits.singleuseseal import BitcoinSealWitness

RULE = ('several threads using the same fresh proofs, trees, witnesses, transactions, blocks, scripts and keys at once, switching '
        'as often as the interpreter allows, with delays injected at random lines of the code: every result as if alone. '
        'Non-trivial: distinct interleavings (sequence of thread switches at lines of the code) and distinct operations.')
ROOT = os.path.realpath(REPO) + os.sep
TOOL = 4


class T:
    """What a thread checks; no shared counters"""
    @staticmethod
    def eq(got, want, msg):
        if not (got == want and type(got) is type(want)):
            raise Violation('%s: got %s, expected %s' % (msg, short(got), short(want)))

    @staticmethod
    def check(c, msg, *d):
        if not c:
            raise Violation(msg, short(d))


class Quiet:
    """Stands in for the monitor inside threads"""
    tier = 'quick'

    def event(self, *a):
        pass
    state = note = known = sample = event

    def check(self, c, msg, *d):
        T.check(c, msg, *d)

    def eq(self, a, b, msg, *d):
        T.check(a == b, '%s: got %s, expected %s' % (msg, short(a), short(b)))

    def same(self, a, b, msg, *d):
        T.eq(a, b, msg)

    def call(self, what, fn, *a, **kw):
        return fn(*a, **kw)

    def raises(self, what, types, fn, *a, **kw):
        try:
            r = fn(*a, **kw)
        except types as e:
            return e
        raise Violation('%s was accepted (returned %s)' % (what, short(r)))


Q = Quiet()


# each scene makes shared objects and returns {name: make(rng) -> operation}
def proofs(rng):
    pool = prooflab.make_pool(rng)
    node = prooflab.make_node(rng, rng.choice(pool))
    top = node.schema.base.cls if node.schema.base is not None else node.schema.cls
    full = node.build()
    twin = node.build()
    h, ser = node.hash, node.ser()
    for _, n in prooflab.find_paths(node):
        n.data_hash

    def visit(r):
        view = prooflab.random_view(r, node)

        def show(o, n, v):
            if v == 'pruned':
                return
            for name, _ in n.schema.attrs:
                if not isinstance(n.vals[name], prooflab.Node):
                    getattr(o, name)
            for name, k in n.kids():
                show(getattr(o, name), k, 'full' if v == 'full' else v.get(name, 'pruned'))
        if not any(True for _ in node.schema.attrs):
            view = 'pruned'
        want = None

        def go():
            p = full.prune()
            show(p, node, view)
            s = p.serialize()
            d = top.deserialize(s)
            T.check(bytes(d.hash) == h and bytes(p.hash) == h, 'commitment of a pruned proof')
            T.check(d == full and hash(d) == hash(full), 'pruned proof differs')
            vis = norm(node, view)
            T.eq(s, node.ser(vis), 'serialized pruned proof')
        return go

    def norm(n, v):
        """A view whose node has no attributes cannot be told from a pruned one"""
        if v == 'pruned' or not n.schema.attrs:
            return 'pruned'
        return {name: norm(k, 'full' if v == 'full' else v.get(name, 'pruned')) for name, k in n.kids()}
    return {
        'hash': lambda r: lambda: T.eq(bytes(full.hash), h, 'hash'),
        'data hash': lambda r: lambda: T.eq(bytes(full.data_hash), node.data_hash, 'data hash'),
        'serialize': lambda r: lambda: T.eq(full.serialize(), ser, 'serialized proof'),
        'equality': lambda r: lambda: T.check(full == twin and not full != twin and hash(full) == hash(twin), 'equal proofs differ'),
        'walk': lambda r: lambda: prooflab.walk_full(Q, full, node, 'shared'),
        'read': lambda r: lambda: prooflab.walk_full(Q, top.deserialize(ser), node, 'read'),
        'prune': visit,
        'repr': lambda r: lambda: T.check(h.hex() in repr(full), 'repr'),
    }


def mmr(rng):
    cls, kind, model = trees.make_mmr_class(rng)
    n = rng.choice((1, 2, 3, 5, 8, 13, 30))
    items = [kind.make(rng) for _ in range(n)]
    real = cls([kind.real(v) for v in items])
    h, ser = model.hash(items), model.ser(items)

    def same(o, k):
        T.check(kind.matches(o[k], items[k]), 'element %d' % k)

    def proof(r):
        idx = [r.randrange(n) for _ in range(r.choice((1, 1, 2, 3)))]

        def go():
            p = real.prune()
            for k in idx:
                same(p, k)
            T.check(bytes(p.hash) == h, 'hash of the pruned list')
            out = p.serialize()
            d = cls.deserialize(out)
            T.check(bytes(d.hash) == h, 'hash of the list read back')
            for k in idx:
                same(d, k)
            for k in range(n):
                if k not in idx:
                    try:
                        d[k]
                    except PrunedError:
                        continue
                    raise Violation('element %d was never looked up and is there' % k)
        return go

    def append(r):
        v = kind.make(r)
        h2 = model.hash(items + [v])

        def go():
            b = real.append(kind.real(v))
            T.check(bytes(b.hash) == h2 and len(b) == n + 1, 'list appended to')
            T.check(len(real) == n, 'length of the original')
        return go

    def iterate(r):
        def go():
            l = list(real)
            T.check(len(l) == n and all(kind.matches(g, w) for g, w in zip(l, items)), 'elements')
        return go
    return {
        'hash': lambda r: lambda: T.eq(bytes(real.hash), h, 'hash'),
        'serialize': lambda r: lambda: T.eq(real.serialize(), ser, 'serialized list'),
        'length': lambda r: lambda: T.eq(len(real), n, 'length'),
        'iterate': iterate, 'proof': proof, 'append': append,
    }


def txs(rng):
    m = btc.gen_tx(rng, rng.randint(1, 4), rng.randint(1, 4), 60)
    t = m.real()
    raw, txid = m.ser(), m.txid()
    mb = btc.gen_block(rng, rng.choice((1, 2, 3, 5)))
    b = mb.real()
    braw, bh = mb.ser(), btc.dsha(mb.header.ser())
    root = btc.merkle_root([x.txid() for x in mb.txs])

    def mutate(r):
        m2 = btc.change_tx(r, m)

        def go():
            c = CMutableTransaction.from_tx(t)
            for i in c.vin:
                i.scriptSig = CScript(b'\x51' + bytes(i.scriptSig))
                i.prevout.n ^= 1
            c.vout.append(c.vout[0])
            c.nLockTime ^= 1
            c.GetHash()
            T.eq(t.serialize(), raw, 'transaction after changing a copy')
            T.eq(m2.real().GetHash(), m2.txid(), 'hash of another transaction')
        return go

    def sighash(r):
        s = btc.gen_script(r)
        if not S.parse(s)[1]:
            s = b'\x51'
        i, ht = r.randrange(len(m.vin)), r.choice((1, 2, 3, 0x81, 0x82, 0x83, 0))
        want, ok = S.sighash(s, m, i, ht)
        if not ok:
            ht = 1
            want, ok = S.sighash(s, m, i, ht)
        return lambda: T.eq(SignatureHash(CScript(s), t, i, ht), want, 'signature hash')

    def proof(r):
        want = bytes(TxProof(tx=CTransaction.deserialize(raw)).hash)
        return lambda: T.check(bytes(TxProof(tx=t).hash) == want, 'hash of a transaction proof')
    return {
        'txid': lambda r: lambda: T.eq(t.GetHash(), txid, 'transaction hash'),
        'serialize': lambda r: lambda: T.eq(t.serialize(), raw, 'serialized transaction'),
        'read': lambda r: lambda: T.check(CTransaction.deserialize(raw) == t, 'transaction read'),
        'hash': lambda r: lambda: T.check(hash(CTransaction.deserialize(raw)) == hash(t), 'python hash'),
        'block hash': lambda r: lambda: T.eq(b.GetHash(), bh, 'block hash'),
        'block': lambda r: lambda: T.eq(b.serialize(), braw, 'serialized block'),
        'merkle': lambda r: lambda: T.check(b.calc_merkle_root() == root, 'merkle root'),
        'read block': lambda r: lambda: T.check(CBlock.deserialize(braw).GetHash() == bh, 'block read'),
        'copy': mutate, 'sighash': sighash, 'proof': proof,
        'message': lambda r: lambda: T.eq(MsgSerializable.from_bytes(frame(t)).tx.GetHash(), txid, 'message'),
    }


def frame(t):
    m = msg_tx()
    m.tx = t
    return m.to_bytes()


def scripts(rng):
    from harness.props import c31
    l = []
    for _ in range(3):
        lock, wrap, spk, src, m, k = c31.scene(rng)
        ss = c31.complete(lock, wrap, lock.satisfy(rng, m, k)[0])
        m.vin[k] = m.vin[k][:2] + (ss, m.vin[k][3])
        bad = bytearray(ss)
        bad[len(bad) // 2] ^= 1
        l.append((CScript(spk), m.real(), k, CScript(ss), S.verify(ss, spk, m, k, True), CScript(bytes(bad)), S.verify(bytes(bad), spk, m, k, True)))
    key = spend.key(rng)
    form = 'c'
    pub = secp.encode(secp.point(key.secret), form)
    ck = CKey(key.secret)
    cp = CPubKey(pub)
    h = gen.blob(rng, 32)
    sig = key.sign(h)
    bits = rng.getrandbits(8)
    h2 = bytes([h[0] ^ 1]) + h[1:]
    stack_progs = []
    for _ in range(3):
        prog = S.gen_any(rng, rng.choice((3, 8)))
        stack = [gen.blob(rng, rng.randint(0, 4)) for _ in range(3)]
        tx = btc.gen_tx(rng, 1, 1, 20)
        try:
            out = list(stack)
            S.evaluate(out, prog, tx, 0)
        except S.Bad:
            out = None
        stack_progs.append((stack, CScript(prog), tx.real(), out))
    # what one evaluation keeps beside the stack - the other stack, the branches it is in, the count of its operations -
    # held over many operations, so that another's comes in between
    for _ in range(4):
        mine = gen.blob(rng, rng.randint(1, 6))
        a, c = CScript([mine]), rng.random() < 0.5
        n = rng.randint(20, 90)
        prog = rng.choice((
            bytes(a) + b'\x6b' + b'\x61' * n + b'\x6c',
            bytes(a) + b'\x76\x6b\x6b' + b'\x61' * n + b'\x6c\x87\x91\x6c',
            (b'\x51' if c else b'\x00') + b'\x63' + b'\x61' * n + bytes(a) + b'\x67' + b'\x61' * n + bytes(CScript([mine + b'!'])) + b'\x68',
            bytes(a) + b'\x61' * (rng.choice((201, 202)) - 1) + b'\x74',
            b'\x61' * n + bytes(a) + b'\x75\x6c'))
        tx = btc.gen_tx(rng, 1, 1, 20)
        try:
            out = []
            S.evaluate(out, prog, tx, 0)
        except S.Bad:
            out = None
        stack_progs.append(([], CScript(prog), tx.real(), out))

    def one(spk, t, k, ss, want):
        try:
            VerifyScript(ss, spk, t, k, (SCRIPT_VERIFY_P2SH,))
            got = True
        except ValidationError:
            got = False
        T.eq(got, want, 'verdict on a spend')

    def run(r):
        stack, prog, t, out = r.choice(stack_progs)

        def go():
            s = list(stack)
            try:
                EvalScript(s, prog, t, 0)
            except EvalScriptError:
                T.check(out is None, 'script refused', prog)
            else:
                T.check(out is not None and [bytes(x) for x in s] == [bytes(x) for x in out], 'stack left by a script', prog, s, out)
        return go

    def verify(r):
        spk, t, k, ss, want, bad, wbad = r.choice(l)
        return (lambda: one(spk, t, k, ss, want)) if r.random() < 0.6 else (lambda: one(spk, t, k, bad, wbad))

    def sign(r):
        def go():
            s = ck.sign(h)
            T.check(cp.verify(h, s) is True and ck.pub.verify(h, s) is True, 'own signature')
            T.check(cp.verify(h2, s) is False, 'signature of another hash')
        return go

    def fresh(r):
        k = spend.key(r)
        p = secp.encode(secp.point(k.secret), 'c')
        return lambda: T.eq(bytes(CKey(k.secret).pub), p, 'public key')
    addr = check58(b'\x00' + btc.hash160(pub))
    return {
        'spend': verify, 'script': run, 'sign': sign, 'key': fresh,
        'signature': lambda r: lambda: T.check(cp.verify(h, sig) is True and cp.verify(h2, sig) is False and ck.pub.verify(h, sig) is True, 'signature'),
        'address': lambda r: lambda: T.check(str(CBitcoinAddress(addr)) == addr, 'address'),
        'ping': lambda r: (lambda n: lambda: T.eq(MsgSerializable.from_bytes(msg_ping(nonce=n).to_bytes()).nonce, n, 'ping'))(r.getrandbits(64)),
    }


def witnesses(rng):
    w, h = c15.make(rng)
    for _ in range(rng.choice((0, 0, 1))):
        c15.break_one(rng, w, h)
    obj = w.real(rng)
    sent = BitcoinSealWitness.deserialize(obj.serialize())
    ok, over = w.closes(), w.over(h)
    other = bytes([h[0] ^ 1]) + h[1:]
    want = bytes(BitcoinSealWitness.deserialize(obj.serialize()).hash)

    def verdict(fn, *a):
        try:
            fn(*a)
            return True
        except PrunedError:
            raise
        except Exception as e:
            return False

    def check(r):
        o = r.choice((obj, obj, sent))
        cut = r.random() < 0.5

        def go():
            x = o.prune() if cut else o
            T.eq(verdict(x.verify), ok, 'verify')
            T.eq(verdict(x.verify_hash, h), over, 'verify_hash')
            T.eq(verdict(x.verify_hash, other), w.over(other), 'verify_hash of another digest')
            if cut and ok:
                T.eq(verdict(BitcoinSealWitness.deserialize(x.serialize()).verify), ok, 'verify when sent')
        return go
    return {'verify': check, 'commitment': lambda r: lambda: T.check(bytes(obj.hash) == want and obj == sent, 'commitment'),
            'serialize': lambda r: lambda: T.check(obj.serialize() == sent.serialize(), 'serialized witness')}


def merbinner(rng):
    cls, kk, vk, model = trees.make_mb_class(rng)
    d = {}
    for _ in range(rng.choice((0, 1, 2, 5, 12))):
        d[kk.make(rng)] = vk.make(rng)
    real = cls([(kk.real(k), vk.real(v)) for k, v in d.items()])
    h, ser = model.hash(d), model.ser(d)
    keys = list(d)

    def proof(r):
        some = [r.choice(keys) for _ in range(r.choice((1, 2)))] if keys else []
        want = model.ser(d, None, {model.bits(k) for k in some})

        def go():
            p = real.prune()
            for k in some:
                T.check(vk.matches(p[kk.real(k)], d[k]), 'value')
            s = p.serialize()
            if not isinstance(kk, trees.KBox) and not isinstance(vk, trees.VBox):
                T.eq(s, want, 'serialized pruned mapping')
            T.check(bytes(cls.deserialize(s).hash) == h, 'commitment of the pruned mapping')
        return go

    def put(r):
        k, v = kk.make(r), vk.make(r)
        d2 = dict(d)
        d2[k] = v
        h2 = model.hash(d2)
        return lambda: T.check(bytes(real.put(kk.real(k), vk.real(v)).hash) == h2, 'mapping with another key')

    def lookup(r):
        def go():
            for k in keys:
                T.check(vk.matches(real[kk.real(k)], d[k]), 'value')
        return go
    return {'hash': lambda r: lambda: T.eq(bytes(real.hash), h, 'hash'), 'proof': proof, 'lookup': lookup, 'put': put,
            'serialize': lambda r: lambda: T.eq(real.serialize(), ser, 'serialized mapping')}


SCENES = [proofs, txs, scripts, witnesses, mmr, merbinner]


def run(rng, mon, i):
    make = SCENES[i % len(SCENES)]
    ops = make(rng)
    names = sorted(ops)
    nthreads = rng.choice((2, 3, 4, 6))
    per = 6 if make is scripts else 10
    plans = []
    focus = rng.choice(names) if rng.random() < 0.4 else None
    for _ in range(nthreads):
        plan = []
        for _ in range(per):
            n = focus if focus and rng.random() < 0.6 else rng.choice(names)
            plan.append((n, ops[n](rng)))
        plans.append(plan)
    barrier = threading.Barrier(nthreads)
    failed = []
    trace = []
    who = {}
    seeds = [rng.getrandbits(64) for _ in range(nthreads)]
    rngs = [random.Random(s) for s in seeds]
    rate = rng.choice((0.0, 0.02, 0.1, 0.3))
    files = {}

    def on_line(code, line):
        fn = code.co_filename
        mine = files.get(fn)
        if mine is None:
            mine = files[fn] = os.path.realpath(fn).startswith(ROOT)
        if not mine:
            return sys.monitoring.DISABLE
        k = who.get(threading.get_ident())
        if k is None:
            return
        if not trace or trace[-1][0] != k:
            trace.append((k, line))
        if rate and rngs[k].random() < rate:
            time.sleep(0 if rngs[k].random() < 0.8 else 0.00002)

    def thread(k):
        who[threading.get_ident()] = k
        try:
            barrier.wait(60)
            for name, op in plans[k]:
                at[k] = name
                op()
        except BaseException as e:
            failed.append((at[k], e))
    at = [None] * nthreads
    old = sys.getswitchinterval()
    m = sys.monitoring
    m.use_tool_id(TOOL, 'delays')
    m.register_callback(TOOL, m.events.LINE, on_line)
    m.set_events(TOOL, m.events.LINE)
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=thread, args=(k,), daemon=True) for k in range(nthreads)]
        for t in ts:
            t.start()
        deadline = time.time() + 240
        for t in ts:
            t.join(max(0, deadline - time.time()))
        stuck = [t for t in ts if t.is_alive()]
    finally:
        sys.setswitchinterval(old)
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)
    mon.check(not stuck, '%s: threads stuck at %s' % (make.__name__, [at]))
    for name, e in failed:
        if isinstance(e, Violation):
            mon.fail('%s, %s, %d threads: %s' % (make.__name__, name, nthreads, e.msg), e.detail)
        raise e
    for plan in plans:
        for name, _ in plan:
            mon.event('%s: %s' % (make.__name__, name))
    mon.event('switches observed between lines', len(trace))
    mon.event('threads', nthreads)
    if len(trace) > nthreads:
        mon.state('interleaving', hashlib.sha256(repr(trace).encode()).digest())


SUITES = [Suite('run', run, 1440, 12000)]

"""EvalScript against an independent interpreter"""
from harness.worker import Suite
from harness import gen
from harness.models import btc, secp, script as S, spend
from bitcoin.core.script import CScript
from bitcoin.core.scripteval import EvalScript, EvalScriptError

RULE = ('programs grown one operation at a time against an independent interpreter (so that most operations find usable operands), '
        'conditionals, alternate stack, signatures over the transaction, then damaged; verdict, final stack and the operation '
        'that failed against that interpreter. Non-trivial: distinct programs with their starting stack; coverage by executed '
        'operation is in distinct_by_kind.')
O = S.OP
ALL = sorted(set(range(0x61, 0xba)) - S.DISABLED)
ARITH = list(S.UNARY) + list(S.BINARY) + [0xa5]
STACK = list(S.SHUFFLE) + [0x73, 0x74, 0x79, 0x7a, 0x82, 0x6b, 0x6c]


def run(mon, stack, prog, m, real, i):
    """Both interpreters; returns the model's verdict"""
    want = list(stack)
    ran, last = [], [None]

    def trace(op, on):
        last[0] = op
        if on:
            ran.append(op)
    err = None
    try:
        S.evaluate(want, prog, m, i, trace)
    except S.Bad as e:
        err = e
    got = list(stack)
    d = 'stack %s program %s' % ([x.hex() for x in stack], prog.hex())
    if len(d) > 3000:
        d = d[:3000]
    if err is None:
        mon.call('EvalScript', EvalScript, got, CScript(prog), real, i)
        if got != want:
            mon.fail('final stack %s, expected %s' % ([x.hex() for x in got], [x.hex() for x in want]), d)
        mon.event('checks')
        for x in got:
            mon.check(isinstance(x, bytes), 'stack item is a %s' % type(x).__name__, d)
    else:
        e = mon.raises('program that fails (%s)' % err, EvalScriptError, EvalScript, got, CScript(prog), real, i)
        if e.sop is not None:
            ops = {at: op for op, _, at in S.parse(prog)[0]}
            mon.check(ops.get(e.sop_pc) == e.sop, 'failing operation 0x%x reported at %r' % (e.sop, e.sop_pc), d)
    mon.event('operations executed', len(ran))
    for op in set(ran):
        mon.state('operation in a program that %s' % ('succeeds' if err is None else 'fails'), '0x%02x' % op)
    mon.state('succeeds' if err is None else 'fails: ' + str(err).split(' 0x')[0], (stack, prog))
    return err


def tx_(rng):
    m = btc.gen_tx(rng, rng.randint(1, 3), rng.randint(0, 3), 40)
    return m, rng.randrange(len(m.vin))


def item(rng, m, i):
    r = rng.random()
    if r < 0.6:
        return S.gen_number(rng)
    if r < 0.8:
        return gen.data(rng, 520, 6)
    if r < 0.88:
        return spend.key(rng).pub
    return rng.choice((b'', b'\x00', b'\x80', b'\x00\x80', b'\x00\x00', b'\x01', b'\x81', b'\x80\x00', b'\x01\x00', b'\x00\x01'))


def step(rng, stack, alt, m, i):
    """An operation, or a few, likely to work on this stack"""
    r = rng.random()
    n = len(stack)
    if r < 0.30 or n == 0 and r < 0.8:
        d = item(rng, m, i)
        if rng.random() < 0.3:
            return spend.small(rng.randint(0, 16)) if rng.random() < 0.9 else b'\x4f'
        return S.gen_push(rng, d)
    if r < 0.50:
        op = rng.choice(ARITH)
        need = 1 if op in S.UNARY else 3 if op == 0xa5 else 2
        out = b''
        for _ in range(need):
            if rng.random() < 0.7:
                out += btc.push(S.gen_number(rng))
        if rng.random() < 0.1:
            v = rng.choice((1, 5, 1000))
            out = btc.push(S.num(v)) * 3
        return out + bytes([op])
    if r < 0.72:
        op = rng.choice(STACK)
        if op in (0x79, 0x7a):
            k = rng.choice((0, 1, n - 1, n, max(0, n - 2), rng.randint(0, n + 1), -1))
            return btc.push(S.num(k)) + bytes([op])
        return bytes([op])
    if r < 0.80:
        return bytes([rng.choice(list(S.HASHES))])
    if r < 0.86:
        return rng.choice((b'\x87', b'\x76\x87', b'\x76\x88', b'\x6e\x87', b'\x88', b'\x76\x69', b'\x69'))
    if r < 0.93:
        # a conditional, perhaps nested
        c = rng.choice((b'\x51', b'\x00', b'', btc.push(S.gen_number(rng)), b'\x01\x80', b'\x02\x00\x80', b'\x02\x80\x00'))
        out = c + bytes([rng.choice((0x63, 0x64))])
        for _ in range(rng.randint(0, 2)):
            out += rng.choice((step(rng, stack, alt, m, i), bytes([rng.choice(ALL)]), b'\x6a', b'\x50', S.gen_push(rng)))
        for _ in range(rng.choice((0, 1, 1, 2))):
            out += b'\x67' + step(rng, stack, alt, m, i)
        return out + b'\x68'
    if r < 0.99:
        return rng.choice((b'\x61', bytes([rng.randrange(0xb0, 0xba)]), b'\xab', b'\x74', b'\x82'))
    # a signature, over this code or something else
    k = spend.key(rng)
    code = btc.push(k.pub) + b'\xac'
    t = rng.choice(spend.HASHTYPES)
    h, _ = S.sighash(code, m, i, t)
    sig = k.sign(h) + bytes([t])
    if rng.random() < 0.3:
        sig = rng.choice((b'', b'\x01', sig[:-1] + bytes([t ^ 1])))
    return btc.push(sig) + b'\xab' + code + rng.choice((b'', b'\x69'))


def programs(rng, mon, i):
    m, k = tx_(rng)
    real = m.real() if rng.random() < 0.5 else m.real_mutable()
    before = real.serialize()
    for _ in range(5):
        stack0 = [item(rng, m, k) for _ in range(rng.choice((0, 0, 1, 3, 6)))]
        prog, stack, alt = b'', list(stack0), []
        for _ in range(rng.choice((1, 2, 4, 8, 16, 30))):
            for _ in range(4):
                s = step(rng, stack, alt, m, k)
                trial = list(stack)
                try:
                    a = S.evaluate(trial, s, m, k, alt=alt)
                except S.Bad:
                    if rng.random() < 0.08:
                        break
                    continue
                stack, alt = trial, a
                break
            else:
                continue
            prog += s
        run(mon, stack0, prog, m, real, k)
        if rng.random() < 0.5:
            run(mon, stack0, gen.mutate(rng, prog), m, real, k) if not has_sig(prog) else None
        if rng.random() < 0.3 and stack0:
            run(mon, stack0[1:], prog, m, real, k)
    mon.check(real.serialize() == before, 'evaluation changed the transaction')


def has_sig(prog):
    return any(op in (0xac, 0xad, 0xae, 0xaf) for op, _, _ in S.parse(prog)[0])


def single(rng, mon, i):
    """Every opcode on stacks around the number of operands it needs"""
    op = i % 256
    m, k = tx_(rng)
    real = m.real()
    for n in range(0, 8):
        for _ in range(4):
            stack = [S.gen_number(rng) if rng.random() < 0.75 else gen.data(rng, 60, 4) for _ in range(n)]
            tail = rng.choice((b'', b'', b'\x74', b'\x68', b'\x51\x68', b'\x67\x51\x68'))
            prog = bytes([op]) + tail
            if op in (0xac, 0xad, 0xae, 0xaf):
                stack = [rng.choice((b'', b'\x01', b'\x02', b'\x81', S.gen_number(rng) if op > 0xad else b'\x03')) for _ in range(n)]
            run(mon, stack, prog, m, real, k)
            # and not executed
            run(mon, stack, b'\x00\x63' + bytes([op]) + b'\x68' + tail, m, real, k)


def pairs(rng, mon, i):
    """Short random programs over a small stack"""
    m, k = tx_(rng)
    real = m.real()
    pool = [x for x in ALL if x not in (0xac, 0xad, 0xae, 0xaf)] + [0x63, 0x64, 0x67, 0x68] * 3
    for _ in range(25):
        stack = [rng.choice((b'', b'\x01', b'\x02', b'\x03', b'\x81', b'\x05', b'abc')) for _ in range(rng.randint(0, 7))]
        prog = b''.join(bytes([rng.choice(pool)]) if rng.random() < 0.8 else btc.push(S.gen_number(rng)) for _ in range(rng.randint(1, 5)))
        run(mon, stack, prog, m, real, k)


def signatures(rng, mon, i):
    m, k = tx_(rng)
    real = m.real()
    for _ in range(2):
        lock = spend.Lock(rng)
        if rng.random() < 0.85:
            ss, sigs = lock.satisfy(rng, m, k)
        else:
            ss, sigs = lock.satisfy(rng, btc.change_tx(rng, m), min(k, len(m.vin) - 1))
        stack = []
        S.evaluate(stack, ss, m, k)
        run(mon, stack, lock.script, m, real, k)
        r = rng.randrange(6)
        prog = lock.script
        if r == 0 and len(stack) > 1:
            a, b = rng.sample(range(len(stack)), 2)
            stack[a], stack[b] = stack[b], stack[a]
        elif r == 1 and stack:
            del stack[rng.randrange(len(stack))]
        elif r == 2:
            # the signature itself inside the code it covers
            prog = btc.push(sigs[0]) + b'\x75' + prog if sigs else prog
        elif r == 3 and sigs:
            prog = prog + b'\x61'
        elif r == 4:
            stack = [x if x not in sigs or rng.random() < 0.5 else rng.choice((b'', x[:-1] + bytes([x[-1] ^ 0x80]))) for x in stack]
        elif r == 5:
            prog = prog.replace(b'\xac', b'\xad\x51').replace(b'\xae', b'\xaf\x51') if S.parse(prog.replace(b'\xac', b'\xad\x51'))[1] else prog
        if S.parse(prog)[1]:
            run(mon, stack, prog, m, real, k)


def multisig(rng, mon, i):
    """Signatures and keys in every order, with duplicates and damage"""
    m, k = tx_(rng)
    real = m.real()
    n = rng.randint(0, 4)
    keys = [spend.key(rng) for _ in range(n)]
    sm = rng.randint(0, n)
    code = spend.small(sm) + b''.join(btc.push(x.pub) for x in keys) + spend.small(n) + rng.choice((b'\xae', b'\xaf\x51'))
    h = {}

    def sign(x, t):
        if t not in h:
            h[t] = S.sighash(code, m, k, t)[0]
        return x.sign(h[t]) + bytes([t])
    who = [rng.choice(keys + [spend.key(rng)]) for _ in range(sm)]
    if rng.random() < 0.6 and sm:
        who = [keys[j] for j in sorted(rng.sample(range(n), sm))]
    sigs = [sign(x, rng.choice((1, 1, 2, 0x81))) for x in who]
    for j in range(len(sigs)):
        if rng.random() < 0.12:
            sigs[j] = rng.choice((b'', sigs[j][:-1] + b'\x03', b'\x30\x00\x01'))
    stack = [rng.choice((b'', b'', b'x', b'\x01'))] + sigs
    if rng.random() < 0.1:
        stack = stack[1:]
    if rng.random() < 0.2:
        stack = [b'below'] + stack
    run(mon, stack, code, m, real, k)


def forged(rng, mon, i):
    """Keys that are none, with signatures that anyone can make for the point at infinity"""
    m, k = tx_(rng)
    real = m.real()
    pub = spend.bad_pub(rng)
    t = rng.choice((1, 1, 2, 3, 0x81, 0x83))
    if rng.random() < 0.5:
        code = btc.push(pub) + rng.choice((b'\xac', b'\xad\x51', b'\xac\x91'))
        stack = [spend.forge(rng, S.sighash(code, m, k, t)[0]) + bytes([t])]
    else:
        good = [spend.key(rng) for _ in range(rng.randint(0, 2))]
        pubs = [x.pub for x in good] + [pub]
        rng.shuffle(pubs)
        n = rng.randint(1, len(pubs))
        code = spend.small(n) + b''.join(map(btc.push, pubs)) + spend.small(len(pubs)) + rng.choice((b'\xae', b'\xaf\x51'))
        h = S.sighash(code, m, k, t)[0]
        by = {x.pub: x for x in good}
        sigs = [(by[p].sign(h) if p in by else spend.forge(rng, h)) + bytes([t]) for p in pubs]
        stack = [b''] + [sigs[j] for j in sorted(rng.sample(range(len(sigs)), n))]
    mon.state('forged', pub)
    run(mon, stack, code, m, real, k)


def inside(rng, mon, i):
    """Signatures written into the script that they cover: each is left out of what is signed"""
    m, k = tx_(rng)
    real = m.real()
    n = rng.randint(1, 4)
    keys = [spend.key(rng) for _ in range(n)]
    sm = rng.randint(1, n)
    who = sorted(rng.sample(range(n), sm))
    single = rng.random() < 0.25
    if single:
        keys, who = keys[:1], [0]
    tail = rng.choice((b'', b'\x61', b'\x69\x51', b'\x51\x75'))
    head = rng.choice((b'', b'\x61', b'\x51\x75', b'\x51\x75\xab', b'\xab'))
    if single:
        a, b = b'', btc.push(keys[0].pub) + b'\xac' + tail
    else:
        a, b = b'\x00', spend.small(sm) + b''.join(btc.push(x.pub) for x in keys) + spend.small(n) + rng.choice((b'\xae', b'\xaf\x51')) + tail
    code = head[head.rindex(b'\xab') + 1:] if b'\xab' in head else head
    types = rng.choice(((1,), (1, 2), (1, 0x81, 3)))
    forms = []
    sigs = []
    for j in who:
        t = rng.choice(types)
        sigs.append(keys[j].sign(S.sighash(code + a + b, m, k, t)[0]) + bytes([t]))
    if rng.random() < 0.15:
        # one that does not sign that
        j = rng.randrange(len(sigs))
        sigs[j] = keys[who[j]].sign(S.sighash(code + a + btc.push(sigs[j]) + b, m, k, 1)[0]) + b'\x01'
    elif rng.random() < 0.15 and sm > 1:
        a2 = rng.randrange(len(sigs))
        sigs[a2] = sigs[a2 - 1]
    # written as signatures are pushed, or in another form (which stays)
    pushes = [btc.push(x) if rng.random() < 0.9 else b'\x4c' + bytes([len(x)]) + x for x in sigs]
    prog = head + a + b''.join(pushes) + b
    run(mon, [], prog, m, real, k)
    # some from outside, some inside
    cut = rng.randint(0, len(sigs))
    outside = [b''] + sigs[:cut] if not single else sigs[:cut]
    prog = head + (b'' if outside and not single else a) + b''.join(pushes[cut:]) + b
    run(mon, outside, prog, m, real, k)
    # and repeated where they do nothing
    prog = head + a + b''.join(pushes) + b + btc.push(rng.choice(sigs)) + b'\x75'
    run(mon, [], prog, m, real, k)


def truth(rng, mon, i):
    """True or false: items of every length that are zero, negative zero or nearly so"""
    n = i % 521
    m, k = tx_(rng)
    real = m.real()
    items = {bytes(n), bytes(n - 1) + b'\x80' if n else b''}
    for _ in range(3):
        if n:
            b = bytearray(n)
            b[rng.randrange(n)] = rng.choice((1, 0x80, 0x80, 0xff, 0x7f, 0x81))
            items.add(bytes(b))
            b[-1] ^= 0x80
            items.add(bytes(b))
    for x in sorted(items):
        for prog in (b'\x63\x51\x67\x52\x68', b'\x64\x51\x67\x52\x68', b'\x69', b'\x73'):
            run(mon, [b'\x05', x], prog, m, real, k)
            run(mon, [b'\x05'], btc.push(x) + prog, m, real, k)
        mon.state('item', x)


def brim(rng, mon, i):
    """Programs that come near the most items there may be, by every way of adding one"""
    m, k = tx_(rng)
    real = m.real()
    n = rng.choice((1000, 999, 998, 997, 990, rng.randint(900, 1000)))
    stack = [item(rng, m, k) if rng.random() < 0.05 else b'\x01' for _ in range(n)]
    prog = b''
    for _ in range(rng.randint(1, 8)):
        prog += rng.choice((b'\x51', b'\x00', b'\x4f', btc.push(gen.data(rng, 30)), b'\x4c\x01a', b'\x76', b'\x6e', b'\x6f', b'\x70', b'\x78', b'\x7d', b'\x74',
                            b'\x73', b'\x82', b'\x6b', b'\x6b', b'\x6c', b'\x75', b'\x75', b'\x6d', b'\x77', b'\x61', b'\x51\x79', b'\x51\x63', b'\x67', b'\x68'))
    run(mon, stack, prog, m, real, k)
    # reaching down to the bottom, and past it
    d = rng.choice((len(stack), rng.choice((1, 2, 17, 128, 129, 255, 256, 257, 300, 700))))
    stack = [b'\x07'] + [b'%d' % (j % 7) for j in range(d - 1)]
    for at in (d - 2, d - 1, d, d + 1, -1):
        run(mon, stack, btc.push(S.num(at)) + rng.choice((b'\x79', b'\x7a')), m, real, k)


SUITES = [Suite('brim', brim, 1500, 10000), Suite('truth', truth, 521, 2605), Suite('programs', programs, 8000, 40000), Suite('single', single, 512, 5120), Suite('pairs', pairs, 5000, 30000),
          Suite('signatures', signatures, 1200, 8000), Suite('multisig', multisig, 800, 6000), Suite('inside', inside, 1000, 8000), Suite('forged', forged, 800, 6000)]

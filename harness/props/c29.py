"""Script evaluation is total, within its limits"""
from harness.worker import Suite
from harness import gen
from harness.models import btc, secp, script as S, spend
from harness.props.c28 import run, tx_
from bitcoin.core import ValidationError
from bitcoin.core.script import CScript
from bitcoin.core.scripteval import EvalScript, EvalScriptError, VerifyScript, VerifySignature, SCRIPT_VERIFY_P2SH, MAX_STACK_ITEMS

RULE = ('programs built to land just under, on and just over each limit (script size, operation count, pushed data, stack items, number '
        'size, multisig keys) against an independent interpreter; hostile scripts, public keys, signatures and indexes watched for '
        'any outcome other than success or a script error carrying the state of execution. Non-trivial: distinct programs.')


def pad(n):
    """A valid program of exactly n bytes that leaves the stack as it was"""
    out = []
    while n >= 524:
        out.append(b'\x4d\x08\x02' + bytes(520) + b'\x75')
        n -= 524
    if n >= 4:
        k = n - 4
        out.append(b'\x4d' + k.to_bytes(2, 'little') + bytes(k) + b'\x75')
    else:
        out.append(b'\x61' * n)
    return b''.join(out)


def limits(rng, mon, i):
    m, k = tx_(rng)
    real = m.real()
    d = rng.choice((-1, 0, 0, 1, 1, gen.int_in(rng, -30, 30)))
    which = i % 8
    stack = [rng.choice((b'', b'\x01', b'abc')) for _ in range(rng.randint(0, 3))]
    if which == 0:
        prog = pad(10000 + d - 1) + rng.choice((b'\x51', b'\x00', b'\x61'))
    elif which == 1:
        # non-push operations, executed or not
        n = 201 + d
        on = rng.random() < 0.5
        parts = [b'\x61', b'\xb0', b'\x74\x75', b'\x51\x75', b'\x51\x69', b'\x61', b'\x05abcde\x75', b'\x4f\x75', b'\x60\x75']
        prog, c = (b'', 0) if on else (b'\x00\x63', 1)
        last = 0 if on else 1
        while c < n - last:
            p = rng.choice(parts) if rng.random() < 0.2 else b'\x61'
            w = sum(op > 0x60 for op, _, _ in S.parse(p)[0])
            if c + w > n - last:
                p, w = b'\x61', 1
            prog, c = prog + p, c + w
        prog += b'' if on else b'\x68'
    elif which == 2:
        # keys of a multisig count as operations
        n = rng.randint(0, 20)
        nops = max(0, 201 + d - n - 1)
        keys = b''.join(rng.choice((b'\x00', b'\x51', b'\x02ab')) for _ in range(n))
        prog = b'\x61' * nops + b'\x00\x00' + keys + (spend.small(n) if n <= 16 else btc.push(S.num(n))) + rng.choice((b'\xae', b'\xaf\x51'))
        if rng.random() < 0.3:
            prog = b'\x00\x63' + prog + b'\x68' if nops > 2 else prog
    elif which == 3:
        n = 520 + d
        p = rng.choice((b'\x4d' + n.to_bytes(2, 'little'), b'\x4e' + n.to_bytes(4, 'little'))) + gen.blob(rng, n)
        prog = rng.choice((p, b'\x00\x63' + p + b'\x68', b'\x51\x63' + p + b'\x68', b'\x00\x63' + p + b'\x67\x51\x68', p + b'\x82', p + b'\xa8'))
    elif which == 4:
        # stack plus alternate stack
        n = 1000 + d
        alt = rng.choice((0, 0, 0, 1, 50, 90))
        have = len(stack)
        prog = b''
        last = rng.choice((b'\x00', b'\x51', b'\x01a', b'\x76', b'\x74', b'\x6e', b'\x6f', b'\x82', b'\x78', b'\x73', b'\x51\x63\x52\x68', b'\x00\x79', b'\x7d', b'\x70', b'\x00\x6b'))
        grow = {b'\x6e': 2, b'\x6f': 3, b'\x70': 2}.get(last, 1)
        fill = n - grow - have
        prog = b''.join(rng.choice((b'\x00', b'\x51', b'\x52')) for _ in range(max(0, fill - 1))) + b'\x52'
        prog += b'\x6b' * alt + last + rng.choice((b'', b'\x75', b'\x6d\x51'))
    elif which == 5:
        # numeric operands of four and five bytes
        op = rng.choice(list(S.UNARY) + list(S.BINARY) + [0xa5, 0x79, 0x7a, 0xae])
        v = rng.choice((2**31 - 1, 2**31, -2**31 + 1, -2**31, 2**31 + 1, 2**32, 2**39, 2**31 - 2))
        need = 1 if op in S.UNARY or op in (0x79, 0x7a) else 3 if op in (0xa5, 0xae) else 2
        big = S.num(v)
        if rng.random() < 0.5:
            # a small value in too many (or just not too many) bytes
            w = rng.choice((0, 1, 2, 3, 5, 16, 127, -1, -5))
            b = bytearray(abs(w).to_bytes(rng.choice((3, 4, 4, 5, 5, 5, 6, 8, 9, 20)), 'little'))
            if w < 0 or rng.random() < 0.1:
                b[-1] |= 0x80
            big = bytes(b)
        nums = [big] + [rng.choice((b'', b'\x01', S.num(5), S.num(2**31 - 1), S.num(-2**31 + 1), bytes(4), bytes(5), b'\x01\x00\x00\x00\x80', b'\x01\x00\x00\x80')) for _ in range(need - 1)]
        rng.shuffle(nums)
        prog = b'\x00\x51\x52\x00\x53\x00'[:rng.randint(2, 6)] + b''.join(btc.push(x) for x in nums) + bytes([op])
        if rng.random() < 0.5:
            prog += b'\x8b'                       # results may be wider than operands
    elif which == 6:
        n = 20 + d
        n = max(-2, n)
        keys = b'\x00' * max(0, n)
        prog = b'\x00\x00' + keys + (spend.small(n) if 0 <= n <= 16 else btc.push(S.num(n))) + rng.choice((b'\xae', b'\xaf\x51'))
        if rng.random() < 0.5:
            sigs = rng.choice((n, n + 1, n - 1, -1, 0))
            prog = b'\x00' * (max(0, sigs) + 1) + (spend.small(sigs) if 0 <= sigs <= 16 else btc.push(S.num(sigs))) + keys + \
                (spend.small(n) if 0 <= n <= 16 else btc.push(S.num(n))) + b'\xae'
    else:
        # conditionals nested to any depth
        n = rng.choice((1, 50, 66, 67, 98, 99, 100, 101))
        prog = b'\x51\x63' * n + b'\x51' + b'\x68' * (n + rng.choice((0, 0, 0, -1, 1)))
        if rng.random() < 0.5:
            prog = prog.replace(b'\x51\x63', b'\x00\x63', 1)
    run(mon, stack, prog, m, real, k)


def gen_pub(rng):
    r = rng.random()
    if r < 0.3:
        return gen.mutate(rng, spend.key(rng).pub)
    if r < 0.5:
        return bytes([rng.choice((0, 2, 3, 4, 5, 6, 7, rng.randrange(256)))]) + gen.blob(rng, rng.choice((0, 31, 32, 33, 63, 64, 65)))
    if r < 0.6:
        return rng.choice((b'', b'\x00', b'\x02', b'\x04', bytes(33), bytes(65), b'\x02' + secp.P.to_bytes(32, 'big'), b'\x02' + b'\xff' * 32))
    return gen.data(rng, 520, 33)


def gen_sig(rng):
    r = rng.random()
    k = spend.key(rng)
    if r < 0.4:
        s = k.sign(gen.blob(rng, 32)) + b'\x01'
        return gen.mutate(rng, s)
    if r < 0.7:
        a, b = rng.choice((0, 1, secp.N, secp.N - 1, secp.P, 2**256 - 1, 2**300, gen.int_in(rng, 0, 2**256))), gen.int_in(rng, 0, 2**256)
        s = secp.der(a, b)
        if rng.random() < 0.5:
            s = rng.choice((s[:-1], s + b'\x00', b'\x30\x81' + s[1:], b'\x30\x84\x00\x00\x00' + s[1:], s[:3] + b'\xff' + s[4:], b'\x30\x80' + s[2:] + b'\x00\x00'))
        return s + bytes([rng.randrange(256)])
    if r < 0.8:
        return rng.choice((b'', b'\x00', b'\x30', b'\x30\x84\xff\xff\xff\xff', b'\x30\x06\x02\x01\x00\x02\x01\x00\x01', b'\x30\x80', bytes(72)))
    return gen.data(rng, 520, 72)


def hostile(rng, mon, i):
    m, k = tx_(rng)
    real = m.real() if rng.random() < 0.5 else m.real_mutable()
    for _ in range(6):
        idx = rng.choice((k, k, k, len(m.vin), len(m.vin) + 5, 2**32))
        r = rng.random()
        stack = [gen.data(rng, 520, 5) for _ in range(rng.randint(0, 4))]
        if r < 0.2:
            prog = gen.data(rng, 12000, 100)
        elif r < 0.4:
            prog = bytes(rng.choice((0x51, 0x63, 0x67, 0x68, 0xac, 0xae, 0x76, 0x79, 0x93, 0xab, 0x6b, 0x6c, rng.randrange(256))) for _ in range(rng.randint(1, 60)))
        elif r < 0.7:
            stack += [gen_sig(rng), gen_pub(rng)]
            prog = rng.choice((b'\xac', b'\xad', b'\x76\xab\xac', b'\x7c\xac'))
        elif r < 0.9:
            n, s = rng.randint(0, 5), rng.randint(0, 5)
            prog = b'\x00' + b''.join(btc.push(gen_sig(rng)) for _ in range(s)) + spend.small(s) + b''.join(btc.push(gen_pub(rng)) for _ in range(n)) + \
                spend.small(n) + rng.choice((b'\xae', b'\xaf'))
            if rng.random() < 0.3:
                prog = gen.mutate(rng, prog)
        else:
            prog = gen.mutate(rng, spend.Lock(rng).script)
        script = CScript(prog)
        got = list(stack)
        try:
            EvalScript(got, script, real, idx)
            mon.event('succeeded')
            mon.check(all(isinstance(x, bytes) for x in got) and len(got) <= 1000 or not prog, 'stack left', got)
        except EvalScriptError as e:
            mon.event('failed')
            state(mon, e, script, real, idx, got)
        except Exception as e:
            mon.fail('EvalScript raised %s: %s' % (type(e).__name__, str(e)[:200]), 'stack %s program %s' % ([x.hex() for x in stack], prog.hex()[:2000]))
        mon.state('hostile program', (stack, prog) if len(prog) < 300 else btc.dsha(prog))
        sig = b''.join(btc.push(x) for x in stack) if rng.random() < 0.7 else gen.data(rng, 400, 30)
        lock = rng.choice((prog, b'\xa9\x14' + btc.hash160(prog) + b'\x87'))
        if lock != prog:
            sig = rng.choice((sig + btc.push(prog), btc.push(prog), sig + b'\x61' + btc.push(prog)))
        for flags in ((), (SCRIPT_VERIFY_P2SH,)):
            try:
                VerifyScript(CScript(sig), CScript(lock), real, idx, flags)
                mon.event('verified')
            except ValidationError:
                mon.event('refused')
            except Exception as e:
                mon.fail('VerifyScript raised %s: %s' % (type(e).__name__, str(e)[:200]), 'scriptSig %s scriptPubKey %s' % (sig.hex()[:2000], lock.hex()[:2000]))


def state(mon, e, script, tx, idx, stack):
    """The error carries the state of execution"""
    mon.check(isinstance(e, ValidationError), 'not a validation error')
    mon.check(e.scriptIn is script and e.txTo is tx and e.inIdx == idx, 'error without the script, transaction or index')
    mon.check(e.stack is stack or e.stack == stack, 'error without the stack')
    if e.sop is not None:
        ops = {at: (op, d) for op, d, at in S.parse(bytes(script))[0]}
        mon.check(ops.get(e.sop_pc) == (e.sop, e.sop_data), 'error reports operation %r at %r' % (e.sop, e.sop_pc))
        mon.check(isinstance(e.altstack, list) and isinstance(e.vfExec, list) and isinstance(e.nOpCount, int) and isinstance(e.pbegincodehash, int),
                  'error without the alternate stack, conditions, operation count or code start')
        mon.check(0 <= e.nOpCount <= 201 + 21 and 0 <= e.pbegincodehash <= len(script), 'operation count %r' % e.nOpCount)
        mon.event('states reported')


def errors(rng, mon, i):
    """Each way to fail, and the state reported"""
    m, k = tx_(rng)
    real = m.real()
    base = b'\x51\x52\x93' + btc.push(gen.data(rng, 40, 5)) + b'\x6b'
    bad = rng.choice((b'\x69\x00\x69', b'\x00\x69', b'\x6a', b'\x6d\x6d', b'\x7e', b'\x67', b'\x68', b'\x63', b'\x05a', b'\x51\x52\x88', b'\x51\x52\x9d', b'\x05abcde\x8b', b'\xff',
                      b'\x00\x00\xad', b'\x01a\x79\x79', b'\x5f\x79', b'\x60\xae', b'\x01\x15\xae', b'\x6c\x6c', b'\x61' * 202, b'\x51\x63', b'\x00\x51\x51\x51\xaf', b'\x50', b'\x65',
                      b'\x00\x63\x65\x68', b'\x4f\xae', b'\x51\xae', b'\x4d\x09\x02' + bytes(521), b'\x71', b'\x72\x72'))
    prog = base + bad + rng.choice((b'', b'\x61', b'\x51'))
    script = CScript(prog)
    stack = []
    try:
        S.evaluate([], prog, m, k)
        fine = True
    except S.Bad:
        fine = False
    if fine:
        mon.call('EvalScript', EvalScript, stack, script, real, k)
        return
    e = mon.raises('EvalScript', EvalScriptError, EvalScript, stack, script, real, k)
    state(mon, e, script, real, k, stack)
    mon.state('error', (type(e).__name__, e.sop, str(e)[:40]))


def constants(rng, mon, i):
    mon.eq(MAX_STACK_ITEMS, 1000, 'stack limit')
    mon.state('limit', 1000)


SUITES = [Suite('limits', limits, 12000, 60000), Suite('hostile', hostile, 8000, 60000), Suite('errors', errors, 3000, 10000),
          Suite('constants', constants, 1, 1, serial=True)]

"""Building and parsing scripts"""
from harness.worker import Suite
from harness import gen
from harness.models import btc, script as S
from bitcoin.core.script import (CScript, CScriptOp, CScriptInvalidError, CScriptTruncatedPushDataError, OPCODE_NAMES, OPCODES_BY_NAME,
                                 MAX_SCRIPT_SIZE, MAX_SCRIPT_ELEMENT_SIZE, MAX_SCRIPT_OPCODES)
import bitcoin.core.script as scr

RULE = ('scripts built from lists, tuples, generators and by appending, with opcodes, integers and data of every encoding size, '
        'against an independent encoder; arbitrary bytes parsed by both iterators against an independent parser. Non-trivial: '
        'distinct built and parsed scripts.')


class MyInt(int):
    pass


class MyBytes(bytes):
    pass


def gen_item(rng):
    """(value given, bytes expected, value iterated back)"""
    r = rng.random()
    if r < 0.3:
        op = rng.randrange(256)
        while 0 < op < 0x4f:
            op = rng.randrange(256)
        back = b'' if op == 0 else op - 0x50 if 0x51 <= op <= 0x60 else op
        return CScriptOp(op), bytes([op]), back
    if r < 0.6:
        v = rng.choice((0, 1, -1, 2, 15, 16, 17, -2, 127, 128, 129, 255, 256, True, False, gen.int_in(rng, -20, 20),
                        gen.int_in(rng, -2**31, 2**31), gen.int_in(rng, -2**rng.choice((64, 300, 2100)), 2**rng.choice((64, 300, 2100)))))
        given = v if rng.random() < 0.9 else MyInt(v)
        if 1 <= v <= 16:
            return given, bytes([0x50 + v]), int(v)
        if v == 0:
            return given, b'\x00', b''
        if v == -1:
            return given, b'\x4f', 0x4f
        return given, btc.push(S.num(v)), S.num(v)
    d = gen.data(rng, rng.choice((20, 300, 300, 1000)), 30)
    if rng.random() < 0.02:
        d = gen.blob(rng, rng.choice((65534, 65535, 65536, 65537, 70000)))
    if rng.random() < 0.1:
        # scripts of every well-known form are pushed like any others
        h = gen.blob(rng, 20)
        d = rng.choice((b'\xa9\x14' + h + b'\x87', b'\x76\xa9\x14' + h + b'\x88\xac', b'\x6a', b'\x6a\x20' + gen.blob(rng, 32), b'\x21\x02' + gen.blob(rng, 32) + b'\xac', b'\x51', b'\x00', b'\x4f', b'\x60',
                        b'\x51\x21\x02' + gen.blob(rng, 32) + b'\x51\xae', b'\x01\x51', b'\x00\x14' + h, b'\x4c', b'\xab', b'\x02ab'))
        return rng.choice((CScript(d), CScript(d), d)), btc.push(d), d
    return rng.choice((d, d, bytearray(d), CScript(d), MyBytes(d))), btc.push(d), d


def build(rng, mon, i):
    items = [gen_item(rng) for _ in range(rng.choice((0, 1, 1, 2, 3, 5, 10, gen.size(rng, 300, 8))))]
    given = [g for g, _, _ in items]
    want = b''.join(e for _, e, _ in items)
    made = [CScript(given), CScript(tuple(given)), CScript(g for g in given)]
    s = CScript()
    for g in given:
        before = bytes(s)
        s2 = mon.call('appending', lambda: s + g)
        mon.check(bytes(s) == before, 'appending changed the script appended to')
        s = s2
    made.append(s)
    k = rng.randint(0, len(given))
    s = CScript(given[:k])
    for g in given[k:]:
        s += g
    made.append(s)
    for g in given:
        if isinstance(g, bytearray) and g:
            g[0] ^= 0xff                 # the script keeps its own copy
    for s in made:
        mon.check(type(s) is CScript, 'not a CScript: %s' % type(s))
        mon.same(bytes(s), want, 'built script', 'items: %r' % (given,) if len(want) < 300 else '')
    mon.state('built', btc.dsha(want) if len(want) > 200 else want)
    back = list(made[0])
    mon.eq(back, [b for _, _, b in items], 'script iterated back')
    for b, (_, _, w) in zip(back, items):
        if type(w) is int and not 1 <= w <= 16:
            mon.check(type(b) is CScriptOp, 'opcode iterated as %s' % type(b))
        elif type(w) is int:
            mon.check(type(b) is int, 'small number iterated as %s' % type(b))
        else:
            mon.check(type(b) is bytes, 'data iterated as %s' % type(b))
    # building again from what was read is stable
    mon.eq(bytes(CScript(list(made[0]))), want, 'script rebuilt from its items')
    for bad in ('text', None, 1.5, object(), ['a']):
        mon.raises('appending %r' % (bad,), TypeError, lambda: made[0] + bad)
        mon.raises('building from %r' % (bad,), TypeError, CScript, [b'a', bad])
    mon.raises('join', NotImplementedError, made[0].join, [b'a'])


def pushes(rng, mon, i):
    """Data of every length around the encoding changes"""
    for n in [i] + ([65530 + i // 8] if i % 8 == 0 and i < 100 else []):
        d = gen.blob(rng, n)
        for s in (CScript([d]), CScript() + d, CScript([bytearray(d)])):
            mon.same(bytes(s), btc.push(d), 'push of %d bytes' % n)
        mon.same(CScriptOp.encode_op_pushdata(d), btc.push(d), 'push of %d bytes' % n)
        mon.eq(list(CScript([d])), [d], 'push of %d bytes read back' % n)
        mon.state('push', n)
    for v in (i, -i, i + 8191, -i - 8191):
        s = CScript([v])
        want = bytes([0x50 + v]) if -1 == v or 1 <= v <= 16 else b'\x00' if v == 0 else btc.push(S.num(v))
        mon.same(bytes(s), want, 'number %d' % v)


def parse(rng, mon, i):
    for _ in range(8):
        b = S.gen_any(rng)
        r = rng.random()
        if r < 0.15 and b:
            b = b[:rng.randrange(len(b))]
        elif r < 0.25:
            b = gen.mutate(rng, b)
        elif r < 0.3:
            n = rng.choice((0, 1, 75, 76, 255, 256, 65535, 65536, 2**24, 2**31, 2**32 - 1))
            b += rng.choice((b'\x4e' + n.to_bytes(4, 'little'), b'\x4d' + (n & 0xffff).to_bytes(2, 'little'), b'\x4c' + bytes([n & 255]))) + gen.data(rng, 300, 80)
        s = CScript(rng.choice((b, bytearray(b))))
        ops, ok = S.parse(b)
        got, err = [], None
        it = s.raw_iter()
        while True:
            try:
                got.append(next(it))
            except StopIteration:
                break
            except CScriptInvalidError as e:
                err = e
                break
        mon.eq([tuple(g) for g in got], ops, 'operations of ' + b.hex()[:400])
        mon.same(err is None, ok, 'validity of ' + b.hex()[:400])
        for _, d, _ in got:
            mon.check(d is None or type(d) is bytes, 'data is a %s' % type(d))
        cooked, err2 = [], None
        it = iter(s)
        while True:
            try:
                cooked.append(next(it))
            except StopIteration:
                break
            except CScriptInvalidError as e:
                err2 = e
                break
        mon.eq(cooked, [d if d is not None else op - 0x50 if 0x51 <= op <= 0x60 else op for op, d, _ in ops], 'items of ' + b.hex()[:400])
        mon.check(type(err) is type(err2), 'iterators disagree about the error')
        if not ok:
            at = sum(len(x) for x in pieces(b, ops))
            rest = b[at:]
            w = {0x4c: 1, 0x4d: 2, 0x4e: 4}.get(rest[0], 0)
            short = len(rest) < 1 + w
            mon.same(isinstance(err, CScriptTruncatedPushDataError), not short, 'kind of the error for ' + b.hex()[:400])
            if not short:
                mon.eq(err.data, rest[1 + w:], 'data that was there')
            mon.event('truncated pushes')
        mon.same(mon.call('is_valid', s.is_valid), ok, 'is_valid')
        mon.call('repr', repr, s)
        mon.state('parsed' if ok else 'parsed up to an error', b)


def pieces(b, ops):
    out = []
    for op, d, at in ops:
        w = {0x4c: 1, 0x4d: 2, 0x4e: 4}.get(op, 0)
        out.append(b[at:at + 1 + w + (len(d) if d is not None else 0)])
    return out


NAMES = {0: 'OP_0', 0x4c: 'OP_PUSHDATA1', 0x4d: 'OP_PUSHDATA2', 0x4e: 'OP_PUSHDATA4', 0x4f: 'OP_1NEGATE', 0x50: 'OP_RESERVED',
         0x63: 'OP_IF', 0x64: 'OP_NOTIF', 0x65: 'OP_VERIF', 0x66: 'OP_VERNOTIF', 0x67: 'OP_ELSE', 0x68: 'OP_ENDIF'}
NAMES.update({0x50 + k: 'OP_%d' % k for k in range(1, 17)})
NAMES.update({0xaf + k: 'OP_NOP%d' % k for k in range(1, 11)})
NAMES.update(enumerate(('OP_NOP', 'OP_VER'), 0x61))
NAMES.update(enumerate('VERIFY RETURN TOALTSTACK FROMALTSTACK 2DROP 2DUP 3DUP 2OVER 2ROT 2SWAP IFDUP DEPTH DROP DUP NIP OVER PICK ROLL ROT SWAP TUCK '
                       'CAT SUBSTR LEFT RIGHT SIZE INVERT AND OR XOR EQUAL EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV NEGATE ABS NOT '
                       '0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT RSHIFT BOOLAND BOOLOR NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN '
                       'LESSTHANOREQUAL GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1 SHA256 HASH160 HASH256 CODESEPARATOR CHECKSIG '
                       'CHECKSIGVERIFY CHECKMULTISIG CHECKMULTISIGVERIFY'.split(), 0x69))
NAMES = {k: v if v.startswith('OP_') else 'OP_' + v for k, v in NAMES.items()}


def opcodes(rng, mon, i):
    for op in range(256):
        o = CScriptOp(op)
        mon.eq(int(o), op, 'CScriptOp')
        small = op == 0 or 0x51 <= op <= 0x60
        mon.same(o.is_small_int(), small, 'is_small_int of 0x%x' % op)
        if small:
            v = op - 0x50 if op else 0
            mon.same(o.decode_op_n(), v, 'decode_op_n')
            mon.eq(CScriptOp.encode_op_n(v), op, 'encode_op_n')
        else:
            mon.raises('decode_op_n of 0x%x' % op, ValueError, o.decode_op_n)
        mon.eq(bytes(CScript([o])), bytes([op]), 'script of one opcode')
        if op in NAMES:
            mon.eq(int(getattr(scr, NAMES[op])), op, NAMES[op])
            mon.eq(OPCODE_NAMES[o], NAMES[op], 'name of 0x%x' % op)
            mon.eq(int(OPCODES_BY_NAME[NAMES[op]]), op, 'opcode named ' + NAMES[op])
            mon.eq(repr(o), NAMES[op], 'repr of 0x%x' % op)
        mon.state('opcode', op)
    for v in (-1, 17, 18, 255, 256, -16, 2**40):
        mon.raises('encode_op_n(%d)' % v, ValueError, CScriptOp.encode_op_n, v)
    mon.eq((MAX_SCRIPT_SIZE, MAX_SCRIPT_ELEMENT_SIZE, MAX_SCRIPT_OPCODES), (10000, 520, 201), 'limits')


SUITES = [Suite('build', build, 24000, 60000), Suite('pushes', pushes, 700, 1400), Suite('parse', parse, 24000, 60000),
          Suite('opcodes', opcodes, 1, 1, serial=True)]

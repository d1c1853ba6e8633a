"""Independent model of Bitcoin scripts: parsing, predicates, numbers, signature hash, interpreter

Written from the behaviour of the reference client; data is plain bytes.
"""
import hashlib
from harness import gen
from harness.models import btc, secp

OP = dict(PUSHDATA1=0x4c, PUSHDATA2=0x4d, PUSHDATA4=0x4e, NEG1=0x4f, RESERVED=0x50, TRUE=0x51, N16=0x60, NOP=0x61, VER=0x62, IF=0x63,
          NOTIF=0x64, VERIF=0x65, VERNOTIF=0x66, ELSE=0x67, ENDIF=0x68, VERIFY=0x69, RETURN=0x6a, TOALT=0x6b, FROMALT=0x6c, DROP2=0x6d,
          DUP2=0x6e, DUP3=0x6f, OVER2=0x70, ROT2=0x71, SWAP2=0x72, IFDUP=0x73, DEPTH=0x74, DROP=0x75, DUP=0x76, NIP=0x77, OVER=0x78,
          PICK=0x79, ROLL=0x7a, ROT=0x7b, SWAP=0x7c, TUCK=0x7d, SIZE=0x82, EQUAL=0x87, EQUALVERIFY=0x88, ADD1=0x8b, SUB1=0x8c,
          NEGATE=0x8f, ABS=0x90, NOT=0x91, NOTEQUAL0=0x92, ADD=0x93, SUB=0x94, BOOLAND=0x9a, BOOLOR=0x9b, NUMEQUAL=0x9c,
          NUMEQUALVERIFY=0x9d, NUMNOTEQUAL=0x9e, LESS=0x9f, GREATER=0xa0, LESSEQ=0xa1, GREATEREQ=0xa2, MIN=0xa3, MAX=0xa4, WITHIN=0xa5,
          RIPEMD160=0xa6, SHA1=0xa7, SHA256=0xa8, HASH160=0xa9, HASH256=0xaa, CODESEP=0xab, CHECKSIG=0xac, CHECKSIGVERIFY=0xad,
          MULTISIG=0xae, MULTISIGVERIFY=0xaf, NOP1=0xb0, NOP10=0xb9)
DISABLED = {0x7e, 0x7f, 0x80, 0x81, 0x83, 0x84, 0x85, 0x86, 0x8d, 0x8e, 0x95, 0x96, 0x97, 0x98, 0x99}


class Bad(Exception):
    """Script is invalid or fails"""


def parse(s):
    """([(opcode, data or None, start)], valid): the ops up to the first invalid push"""
    out, i, n = [], 0, len(s)
    while i < n:
        at, op = i, s[i]
        i += 1
        if op > 0x4e:
            out.append((op, None, at))
            continue
        if op < 0x4c:
            k = op
        else:
            w = {0x4c: 1, 0x4d: 2, 0x4e: 4}[op]
            if i + w > n:
                return out, False
            k = int.from_bytes(s[i:i + w], 'little')
            i += w
        if i + k > n:
            return out, False
        out.append((op, s[i:i + k], at))
        i += k
    return out, True


def num(v):
    """Script number encoding"""
    if v == 0:
        return b''
    b = bytearray(abs(v).to_bytes((abs(v).bit_length() + 7) // 8, 'little'))
    if b[-1] & 0x80:
        b.append(0)
    if v < 0:
        b[-1] |= 0x80
    return bytes(b)


def unnum(b):
    """Value of a script number of any size, minimal or not"""
    if not b:
        return 0
    v = int.from_bytes(b, 'little')
    top = 1 << (8 * len(b) - 1)
    return -(v - top) if v & top else v


def num4(b):
    if len(b) > 4:
        raise Bad('number too long')
    return unnum(b)


def truth(b):
    return any(b[:-1]) or (len(b) > 0 and b[-1] not in (0, 0x80))


def is_p2sh(s):
    return len(s) == 23 and s[:2] == b'\xa9\x14' and s[22:] == b'\x87'


def push_only(s):
    ops, ok = parse(s)
    return ok and all(op <= 0x60 for op, _, _ in ops)


def canonical(s):
    ops, ok = parse(s)
    if not ok:
        return False
    for op, d, _ in ops:
        if d is None:
            continue
        if len(d) == 1 and 0 < op < 0x4c and d[0] <= 16:
            return False
        if op == 0x4c and len(d) < 0x4c or op == 0x4d and len(d) < 0x100 or op == 0x4e and len(d) < 0x10000:
            return False
    return True


def sigops(s, accurate):
    n, last = 0, 0xff
    for op, _, _ in parse(s)[0]:
        if op in (0xac, 0xad):
            n += 1
        elif op in (0xae, 0xaf):
            n += last - 0x50 if accurate and 0x51 <= last <= 0x60 else 20
        last = op
    return n


def delete(s, pat):
    """The script without the operations that are exactly pat (a single operation); an unfinished push stays, with all after it"""
    out, at = b'', 0
    for op, d, start in parse(s)[0] + [(None, None, None)]:
        if start != 0:
            piece = s[at:start]
            if start is None:                   # the last operation, and what is unfinished
                k = len(pat) if at < len(s) and piece.startswith(pat) else 0
                out += piece[k:]
            elif piece != pat:
                out += piece
            at = start
    return out


ONE = b'\x01' + bytes(31)


def sighash(script, tx, i, hashtype):
    """(digest, in range) of the MTx"""
    if i >= len(tx.vin):
        return ONE, False
    script = delete(script, b'\xab')
    base = hashtype & 0x1f
    vin = [(h, n, script if k == i else b'', q if k == i or base not in (2, 3) else 0) for k, (h, n, _, q) in enumerate(tx.vin)]
    vout = list(tx.vout)
    if base == 2:
        vout = []
    elif base == 3:
        if i >= len(vout):
            return ONE, False
        vout = [(-1, b'')] * i + [vout[i]]
    if hashtype & 0x80:
        vin = [vin[i]]
    return btc.dsha(btc.MTx(tx.version, vin, vout, tx.locktime).ser() + btc.le(hashtype, 4)), True


def checksig(sig, pub, script, tx, i):
    if not sig:
        return False
    h, _ = sighash(script, tx, i, sig[-1])
    return secp.verify(pub, h, sig[:-1])


def evaluate(stack, s, tx, i, trace=None, alt=()):
    """Run script s on stack (a list of bytes, changed in place); raises Bad"""
    def need(n):
        if len(stack) < n:
            raise Bad('stack too small')

    if len(s) > 10000:
        raise Bad('script too large')
    alt, cond, count, begin = list(alt), [], 0, 0
    ops, ok = parse(s)
    O = OP
    for op, d, at in ops:
        if d is not None and len(d) > 520:
            raise Bad('push too large')
        if op > 0x60:
            count += 1
            if count > 201:
                raise Bad('too many operations')
        if op in DISABLED:
            raise Bad('disabled')
        run = all(cond)
        if trace is not None:
            trace(op, run)
        if not run and not 0x63 <= op <= 0x68:
            continue                # neither pushed nor executed; sizes did not change
        if d is not None:
            stack.append(d)
        elif op == 0x4f or 0x51 <= op <= 0x60:
            stack.append(num(op - 0x50))
        elif op == O['NOP'] or O['NOP1'] <= op <= O['NOP10']:
            pass
        elif op in (O['IF'], O['NOTIF']):
            v = False
            if run:
                need(1)
                v = truth(stack.pop()) != (op == O['NOTIF'])
            cond.append(v)
        elif op == O['ELSE']:
            if not cond:
                raise Bad('else')
            cond[-1] = not cond[-1]
        elif op == O['ENDIF']:
            if not cond:
                raise Bad('endif')
            cond.pop()
        elif op == O['VERIFY']:
            need(1)
            if not truth(stack[-1]):
                raise Bad('verify')
            stack.pop()
        elif op == O['TOALT']:
            need(1)
            alt.append(stack.pop())
        elif op == O['FROMALT']:
            if not alt:
                raise Bad('alt stack')
            stack.append(alt.pop())
        elif op in SHUFFLE:
            n, perm = SHUFFLE[op]
            need(n)
            top = stack[-n:]
            stack[-n:] = [top[k] for k in perm]
        elif op == O['IFDUP']:
            need(1)
            if truth(stack[-1]):
                stack.append(stack[-1])
        elif op == O['DEPTH']:
            stack.append(num(len(stack)))
        elif op in (O['PICK'], O['ROLL']):
            need(2)
            n = num4(stack.pop())
            if not 0 <= n < len(stack):
                raise Bad('index')
            k = len(stack) - 1 - n
            v = stack[k]
            if op == O['ROLL']:
                del stack[k]
            stack.append(v)
        elif op == O['SIZE']:
            need(1)
            stack.append(num(len(stack[-1])))
        elif op in (O['EQUAL'], O['EQUALVERIFY']):
            need(2)
            b, a = stack.pop(), stack.pop()
            if op == O['EQUAL']:
                stack.append(b'\x01' if a == b else b'')
            elif a != b:
                raise Bad('equalverify')
        elif op in UNARY:
            need(1)
            stack.append(num(UNARY[op](num4(stack.pop()))))
        elif op in BINARY:
            need(2)
            b, a = num4(stack[-1]), num4(stack[-2])
            del stack[-2:]
            v = BINARY[op](a, b)
            if op == O['NUMEQUALVERIFY']:
                if not v:
                    raise Bad('numequalverify')
            else:
                stack.append(num(int(v)))
        elif op == O['WITHIN']:
            need(3)
            x, lo, hi = num4(stack[-3]), num4(stack[-2]), num4(stack[-1])
            del stack[-3:]
            stack.append(b'\x01' if lo <= x < hi else b'')
        elif op in HASHES:
            need(1)
            stack.append(HASHES[op](stack.pop()))
        elif op == O['CODESEP']:
            begin = at + 1
        elif op in (O['CHECKSIG'], O['CHECKSIGVERIFY']):
            need(2)
            pub, sig = stack[-1], stack[-2]
            v = checksig(sig, pub, delete(s[begin:], btc.push(sig)), tx, i)
            del stack[-2:]
            if op == O['CHECKSIG']:
                stack.append(b'\x01' if v else b'')
            elif not v:
                raise Bad('checksigverify')
        elif op in (O['MULTISIG'], O['MULTISIGVERIFY']):
            need(1)
            n = num4(stack[-1])
            if not 0 <= n <= 20:
                raise Bad('key count')
            count += n
            if count > 201:
                raise Bad('too many operations')
            need(n + 2)
            keys = stack[-1 - n:-1]
            m = num4(stack[-2 - n])
            if not 0 <= m <= n:
                raise Bad('signature count')
            need(n + m + 3)
            sigs = stack[-2 - n - m:-2 - n]
            code = s[begin:]
            for sig in sigs:
                code = delete(code, btc.push(sig))
            ks, ss = keys[:], sigs[:]
            while ss and len(ss) <= len(ks):
                if checksig(ss[-1], ks[-1], code, tx, i):
                    ss.pop()
                ks.pop()
            v = not ss
            del stack[-(n + m + 3):]
            if op == O['MULTISIG']:
                stack.append(b'\x01' if v else b'')
            elif not v:
                raise Bad('multisigverify')
        else:
            raise Bad('bad opcode 0x%x' % op)       # RETURN, VER, VERIF, RESERVED and everything unknown
        if len(stack) + len(alt) > 1000:
            raise Bad('stack size')
    if not ok:
        raise Bad('invalid push')
    if cond:
        raise Bad('unbalanced conditional')
    return alt


def b2i(f):
    return f


SHUFFLE = {0x6d: (2, []), 0x6e: (2, [0, 1, 0, 1]), 0x6f: (3, [0, 1, 2, 0, 1, 2]), 0x70: (4, [0, 1, 2, 3, 0, 1]), 0x71: (6, [2, 3, 4, 5, 0, 1]),
           0x72: (4, [2, 3, 0, 1]), 0x75: (1, []), 0x76: (1, [0, 0]), 0x77: (2, [1]), 0x78: (2, [0, 1, 0]), 0x7b: (3, [1, 2, 0]),
           0x7c: (2, [1, 0]), 0x7d: (2, [1, 0, 1])}
UNARY = {0x8b: lambda a: a + 1, 0x8c: lambda a: a - 1, 0x8f: lambda a: -a, 0x90: abs, 0x91: lambda a: int(a == 0), 0x92: lambda a: int(a != 0)}
BINARY = {0x93: lambda a, b: a + b, 0x94: lambda a, b: a - b, 0x9a: lambda a, b: a != 0 and b != 0, 0x9b: lambda a, b: a != 0 or b != 0,
          0x9c: lambda a, b: a == b, 0x9d: lambda a, b: a == b, 0x9e: lambda a, b: a != b, 0x9f: lambda a, b: a < b, 0xa0: lambda a, b: a > b,
          0xa1: lambda a, b: a <= b, 0xa2: lambda a, b: a >= b, 0xa3: min, 0xa4: max}
HASHES = {0xa6: lambda b: hashlib.new('ripemd160', b).digest(), 0xa7: lambda b: hashlib.sha1(b).digest(), 0xa8: lambda b: hashlib.sha256(b).digest(),
          0xa9: btc.hash160, 0xaa: btc.dsha}


def verify(sig, pubkey, tx, i, p2sh):
    """Does scriptSig sig satisfy scriptPubKey pubkey?  Returns bool"""
    try:
        stack = []
        evaluate(stack, sig, tx, i)
        copy = list(stack)
        evaluate(stack, pubkey, tx, i)
        if not stack or not truth(stack[-1]):
            return False
        if p2sh and is_p2sh(pubkey):
            if not push_only(sig):
                return False
            inner = copy.pop()
            evaluate(copy, inner, tx, i)
            if not copy or not truth(copy[-1]):
                return False
        return True
    except Bad:
        return False


# -- generators
def gen_push(rng, d=None):
    """A push of some data, canonical or not"""
    if d is None:
        d = gen.data(rng, rng.choice((5, 80, 80, 300, 600)), 6)
    n = len(d)
    forms = [btc.push(d)]
    if n < 256:
        forms.append(b'\x4c' + bytes([n]) + d)
    if n < 65536:
        forms.append(b'\x4d' + n.to_bytes(2, 'little') + d)
    forms.append(b'\x4e' + n.to_bytes(4, 'little') + d)
    return forms[0] if rng.random() < 0.7 else rng.choice(forms)


def gen_any(rng, n=None):
    """Any bytes at all, mostly parseable"""
    if rng.random() < 0.15:
        return gen.data(rng, 400, 40)
    out = []
    for _ in range(rng.choice((0, 1, 2, 3, 5, 8, 15)) if n is None else n):
        r = rng.random()
        if r < 0.4:
            out.append(gen_push(rng))
        elif r < 0.6:
            out.append(bytes([rng.choice((0, 0x4f, 0x50, 0x51, 0x52, 0x53, 0x60, rng.randrange(0x4f, 0x61)))]))
        elif r < 0.75:
            out.append(bytes([rng.choice((0xac, 0xad, 0xae, 0xaf, 0xab, 0x6a, 0x87, 0xa9))]))
        elif r < 0.97:
            out.append(bytes([rng.randrange(256)]))
        else:
            out.append(rng.choice((b'\x4c', b'\x4d\x01', b'\x4e\x01\x00\x00', b'\x4e\xff\xff\xff\xff', b'\x4d', b'\x4e', b'\x05ab')))
    s = b''.join(out)
    if rng.random() < 0.1 and s:
        s = s[:-1]
    return s


def gen_number(rng):
    """Encoded script number, minimal or not, sometimes too long"""
    r = rng.random()
    if r < 0.5:
        return num(rng.choice((0, 1, -1, 2, 3, 4, 5, 16, 17, -2, 127, 128, 255, 256, -127, -128)))
    if r < 0.75:
        return num(gen.int_in(rng, -2**31 + 1, 2**31 - 1))
    if r < 0.85:
        b = bytearray(num(gen.int_in(rng, -2**15, 2**15)))        # padded
        neg = bool(b) and b[-1] & 0x80
        if neg:
            b[-1] &= 0x7f
        b += bytes(rng.choice((1, 1, 2, 2, 3, 4, 5)))
        if neg or rng.random() < 0.2:
            b[-1] |= 0x80
        return bytes(b)
    if r < 0.93:
        return num(gen.int_in(rng, -2**40, 2**40))
    return gen.blob(rng, rng.choice((0, 1, 4, 5, 20)))

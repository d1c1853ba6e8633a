"""Input generators: every size, integer and byte string comes from here.

Values concentrate on boundaries, and on the constants that occur in the code
under test: constants of the current tree that were not there when this
framework was written (harness/const_baseline.json) get extra weight, because a
changed threshold or a new special case is where behaviour may differ.  The
constants only steer generation; no oracle looks at them.
"""
import ast, json, os, warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
BASELINE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'const_baseline.json')


def source_files():
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'test', 'tests', 'examples', '__pycache__', 'docs'))
        for f in sorted(files):
            if f.endswith('.py') and not os.path.islink(os.path.join(root, f)):
                yield os.path.join(root, f)


def harvest():
    """Multiset of constants: {('int', 5): 3, ('bytes', '00ff'): 1}"""
    out = {}
    for path in source_files():
        try:
            with open(path, 'rb') as fd:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(fd.read())
        except (SyntaxError, ValueError, OSError):
            continue
        docs = set()
        for node in ast.walk(tree):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                docs.add(id(node.value))
        for node in ast.walk(tree):
            v = None
            if isinstance(node, ast.Constant):
                if id(node) in docs:
                    continue
                v = node.value
            elif isinstance(node, ast.BinOp):
                # constant expressions such as 2**16-1 or 1 << 20
                try:
                    if all(isinstance(n, (ast.BinOp, ast.Constant, ast.operator)) for n in ast.walk(node)):
                        v = _fold(node)
                except Exception:
                    v = None
            if type(v) is int:
                k = 'i%d' % v
            elif type(v) is bytes and len(v) <= 1100:
                k = 'b' + v.hex()
            elif type(v) is str and len(v) <= 64:
                k = 'b' + v.encode('utf8', 'surrogatepass').hex()
            else:
                continue
            out[k] = out.get(k, 0) + 1
    return out


def _fold(n):
    if isinstance(n, ast.Constant):
        if type(n.value) is not int:
            raise ValueError
        return n.value
    l, r = _fold(n.left), _fold(n.right)
    op = type(n.op)
    if op is ast.Add: return l + r
    if op is ast.Sub: return l - r
    if op is ast.Mult and abs(l) < 2**300 and abs(r) < 2**300: return l * r
    if op is ast.LShift and 0 <= r < 1000: return l << r
    if op is ast.RShift and 0 <= r < 1000: return l >> r
    if op is ast.Pow and 0 <= r < 1000 and abs(l) < 1000: return l ** r
    if op is ast.FloorDiv and r: return l // r
    if op is ast.BitOr: return l | r
    if op is ast.BitAnd: return l & r
    raise ValueError


def _load():
    now = harvest()
    try:
        with open(BASELINE) as fd:
            base = json.load(fd)
    except OSError:
        base = now
    ints, novel_ints, strs, novel_strs = [], [], [], []
    for k, n in sorted(now.items()):
        novel = n > base.get(k, 0)
        if k[0] == 'i':
            v = int(k[1:])
            ints.append(v)
            if novel:
                novel_ints.append(v)
        else:
            v = bytes.fromhex(k[1:])
            strs.append(v)
            if novel:
                novel_strs.append(v)
    return ints, novel_ints, strs, novel_strs


INTS, NOVEL_INTS, STRS, NOVEL_STRS = _load()
DICT_INTS = sorted({v for v in INTS if v >= 0})
POWERS = sorted({max(0, (1 << k) + d) for k in range(0, 257) for d in (-1, 0, 1)})
EDGES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 75, 76, 77, 127, 128, 129,
         199, 200, 201, 202, 252, 253, 254, 255, 256, 257, 519, 520, 521, 999, 1000, 1001,
         9999, 10000, 10001, 0xfffe, 0xffff, 0x10000, 0x10001]


def int_in(rng, lo, hi):
    """Integer in [lo, hi], concentrated on the edges"""
    for _ in range(20):
        r = rng.random()
        if r < 0.10:
            v = lo + rng.choice((0, 0, 0, 1, 1, 2, 3))
        elif r < 0.20:
            v = hi - rng.choice((0, 0, 0, 1, 1, 2, 3))
        elif r < 0.35:
            v = rng.choice(POWERS) * (rng.choice((1, -1)) if lo < 0 else 1)
        elif r < 0.50:
            v = rng.choice(EDGES) * (rng.choice((1, -1)) if lo < 0 else 1)
        elif r < 0.58:
            v = rng.choice(INTS) + rng.choice((0, 0, -1, 1))
        elif r < 0.68:
            if not NOVEL_INTS:
                continue
            v = rng.choice(NOVEL_INTS) + rng.choice((0, 0, 0, -1, 1))
            if rng.random() < 0.2:
                v *= rng.choice((1, 2, 3, 8, 256))
        elif r < 0.85:
            bits = rng.randint(0, max(1, max(abs(lo), abs(hi)).bit_length()))
            v = rng.getrandbits(bits) if bits else 0
            if lo < 0 and rng.random() < 0.5:
                v = -v
        else:
            v = rng.randint(lo, hi)
        if lo <= v <= hi:
            return v
    return rng.randint(lo, hi)


def size(rng, hi, typical=None):
    """Length in [0, hi]; mostly small, with edges and novel constants mixed in"""
    typical = min(hi, typical if typical is not None else 40)
    for _ in range(10):
        r = rng.random()
        if r < 0.55:
            v = rng.randint(0, typical)
        elif r < 0.75:
            v = rng.choice(EDGES)
        elif r < 0.85:
            if not NOVEL_INTS:
                continue
            v = rng.choice(NOVEL_INTS) + rng.choice((0, 0, -1, 1))
        elif r < 0.90:
            v = rng.choice(DICT_INTS)
        elif r < 0.95:
            v = rng.randint(0, hi)
        else:
            v = int(2 ** (rng.random() * max(1, hi).bit_length()))
        if 0 <= v <= hi:
            return v
    return rng.randint(0, typical)


def blob(rng, n):
    """Byte string of exactly n bytes, with varied structure"""
    if n <= 0:
        return b''
    r = rng.random()
    if r < 0.45:
        return rng.randbytes(n)
    if r < 0.52:
        return bytes(n)
    if r < 0.57:
        return b'\xff' * n
    if r < 0.62:
        return bytes([rng.randrange(256)]) * n
    if r < 0.70:                         # a single odd byte
        b = bytearray(bytes([rng.choice((0, 0xff, 0x80, 1))]) * n)
        b[rng.randrange(n)] = rng.randrange(256)
        return bytes(b)
    if r < 0.78:                         # leading zeros / trailing zeros
        k = rng.randint(0, n)
        return (bytes(k) + rng.randbytes(n - k)) if rng.random() < 0.5 else (rng.randbytes(n - k) + bytes(k))
    if r < 0.84:                         # periodic
        p = rng.randbytes(rng.randint(1, 4))
        return (p * (n // len(p) + 1))[:n]
    if r < 0.90:
        return bytes((rng.choice((0, 1, 0x7f, 0x80, 0xff, 0xfd, 0xfe, 0x4c, 0x4d, 0x4e))) for _ in range(n))
    pool = NOVEL_STRS if NOVEL_STRS and rng.random() < 0.6 else STRS
    s = rng.choice(pool)
    if not s:
        return rng.randbytes(n)
    if len(s) >= n:
        return s[:n]
    pad = rng.randbytes(n - len(s))
    k = rng.choice((0, len(pad), rng.randint(0, len(pad))))
    return pad[:k] + s + pad[k:]


def data(rng, hi, typical=None):
    if NOVEL_STRS and rng.random() < 0.04:
        s = rng.choice(NOVEL_STRS)
        if len(s) <= hi:
            return s
    return blob(rng, size(rng, hi, typical))


def twin(rng, h):
    """Another byte string of the same length: mostly one that differs in a single bit, at the ends more often than not"""
    if rng.random() < 0.25 or not h:
        x = blob(rng, len(h))
        if x != h:
            return x
        if not h:
            return h
    b = bytearray(h)
    b[rng.choice((0, len(h) - 1, rng.randrange(len(h)), rng.randrange(len(h))))] ^= 1 << rng.randrange(8)
    return bytes(b)


def mutate(rng, b):
    """A damaged copy of a byte string"""
    b = bytearray(b)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        r = rng.random()
        if not b or r < 0.1:
            k = rng.randint(0, len(b))
            b[k:k] = blob(rng, rng.choice((1, 1, 2, 4, 32)))
        elif r < 0.35:
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif r < 0.5:
            b[rng.randrange(len(b))] = rng.choice((0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xfd, 0xfe, 0xff, rng.randrange(256)))
        elif r < 0.62:
            k = rng.randrange(len(b))
            del b[k:k + rng.choice((1, 1, 2, 4, 32))]
        elif r < 0.72:
            del b[rng.randrange(len(b)):]
        elif r < 0.82:
            b += blob(rng, rng.choice((1, 1, 2, 32)))
        elif r < 0.92:
            k = rng.randrange(len(b))
            n = rng.choice((1, 2, 4, 8, 32))
            j = rng.randrange(len(b))
            b[k:k + n] = b[j:j + n]
        else:
            k = rng.randrange(len(b))
            n = rng.choice((1, 2, 4, 32))
            b[k:k + n] = blob(rng, min(n, len(b) - k))
    return bytes(b)


if __name__ == '__main__':
    with open(BASELINE, 'w') as fd:
        json.dump(harvest(), fd, indent=0, sort_keys=True)
        fd.write('\n')

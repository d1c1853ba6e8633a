"""Merbinner tree: behaves as an immutable mapping"""
from harness.worker import Suite
from harness.monitor import short
from harness import gen
from harness.models import trees
from proofmarshal.proof import PrunedError

RULE = ('random histories of construction, put, overwrite, remove, lookup over a pool of mappings with every kind of key '
        '(narrow integers, bytes, hashed, proofs) and value, compared with a Python dict; all subsets of small key spaces; keys that share a placement. '
        'Non-trivial: distinct (operation, key set) outcomes.')
ASSUMPTIONS = ['keys of one tree have placements of one length (the documented prefix-free use)']


def agree(mon, t, d, kk, vk, what):
    mon.eq(mon.call('len', len, t), len(d), what + ': length')
    keys = mon.call('keys', lambda: list(t.keys()))
    vals = mon.call('values', lambda: list(t.values()))
    items = mon.call('items', lambda: list(t.items()))
    mon.eq(len(keys), len(d), what + ': number of keys')
    mon.eq(len(list(iter(t))), len(d), what + ': number of keys iterated')
    mon.check(len(vals) == len(items) == len(d), what + ': number of values or items')
    plain = {}
    for k, v in d.items():
        plain[kk.commit(k)] = (k, v)
    seen = set()
    for (k, v), k2, v2, k3 in zip(items, keys, vals, t):
        raw = bytes(k.hash) if isinstance(k, trees.Boxed) else kk.commit(k)
        mon.check(raw in plain and raw not in seen, what + ': key that should not be there, or twice', k)
        seen.add(raw)
        mk, mv = plain[raw]
        mon.check(kk.matches(k, mk) and vk.matches(v, mv), what + ': item', (k, v), (mk, mv))
        mon.check(k == k2 == k3 and v == v2, what + ': keys(), values() and items() disagree')
    mon.event('items', len(d))


def lookup(mon, t, d, kk, vk, k, what):
    if k in d:
        v = mon.call('lookup', lambda: t[kk.real(k)])
        mon.check(vk.matches(v, d[k]), what + ': value of a key', k, v, d[k])
    else:
        mon.raises(what + ': lookup of a missing key', KeyError, lambda: t[kk.real(k)])
    mon.event('lookups')


def some_key(rng, kk, d):
    r = rng.random()
    if d and r < 0.45:
        return rng.choice(sorted(d, key=repr))
    if d and r < 0.8:
        return kk.near(rng, rng.choice(sorted(d, key=repr)))
    return kk.make(rng)


def new(rng, mon, cls, kk, vk, n=None):
    n = gen.size(rng, 250, 12) if n is None else n
    d = {}
    pairs = []
    for _ in range(n):
        k = some_key(rng, kk, d)
        v = vk.make(rng)
        d[k] = v
        pairs.append((kk.real(k), vk.real(v)))
    how = rng.randrange(4)
    if how == 3:
        other = trees.make_mb_class(rng, kk, vk)[0]
        t = mon.call('construct from a tree of another class', cls, other(pairs))
        mon.check(isinstance(t, cls), 'made from a tree of another class, it is not of this class')
    elif how == 0:
        t = mon.call('construct from pairs', cls, pairs)
    elif how == 1:
        t = mon.call('construct from a dict', cls, {kk.real(k): vk.real(v) for k, v in d.items()})
    else:
        t = cls()
        for k, v in pairs:
            t = mon.call('put', t.put, k, v)
    return t, d


def operate(rng, mon, pool, cls, kk, vk):
    t, d = rng.choice(pool)
    op = rng.randrange(7)
    k = some_key(rng, kk, d)
    if op <= 2:
        v = vk.make(rng)
        nd = dict(d)
        nd[k] = v
        nt = mon.call('put (%s)' % ('overwrite' if k in d else 'new'), t.put, kk.real(k), vk.real(v))
        agree(mon, nt, nd, kk, vk, 'put into %d items' % len(d))
        lookup(mon, nt, nd, kk, vk, k, 'after put')
        pool.append((nt, nd))
        mon.state('put', (len(d), k in d, k))
    elif op <= 4:
        if k in d:
            nd = dict(d)
            del nd[k]
            nt = mon.call('remove', t.remove, kk.real(k))
            agree(mon, nt, nd, kk, vk, 'remove from %d items' % len(d))
            lookup(mon, nt, nd, kk, vk, k, 'after remove')
            pool.append((nt, nd))
        else:
            mon.raises('removing a missing key', KeyError, t.remove, kk.real(k))
        mon.state('remove', (len(d), k in d, k))
    elif op == 5:
        for _ in range(6):
            lookup(mon, t, d, kk, vk, some_key(rng, kk, d), 'lookup')
    else:
        o, od = rng.choice(pool)
        mon.same(mon.call('==', lambda: t == o), d == od, 'equality of mappings')
    mon.event('operations')
    if len(pool) > 10:
        del pool[rng.randrange(len(pool))]


def history(rng, mon, i):
    cls, kk, vk, _ = trees.make_mb_class(rng)
    pool = [(cls(), {})] + [new(rng, mon, cls, kk, vk) for _ in range(2)]
    for t, d in pool:
        agree(mon, t, d, kk, vk, 'construction')
    for _ in range(16):
        operate(rng, mon, pool, cls, kk, vk)
    for t, d in pool:
        agree(mon, t, d, kk, vk, 'operand after the history')
        for k in list(d)[:20]:
            lookup(mon, t, d, kk, vk, k, 'operand after the history')


def subsets(rng, mon, i):
    """Every set of keys of a small key space (3 or 4 bits): lookups, removals, puts"""
    cls, kk, vk, _ = trees.make_mb_class(rng, trees.KInt(3 if i < 256 else 4), trees.VUInt(trees.UInt64, 64))
    space = 8 if i < 256 else 16
    bits = i if i < 256 else rng.getrandbits(16)
    keys = [k for k in range(space) if bits >> k & 1]
    rng.shuffle(keys)
    d = {k: 100 + k for k in keys}
    t = cls(d)
    agree(mon, t, d, kk, vk, 'small mapping')
    for k in range(space):
        lookup(mon, t, d, kk, vk, k, 'small mapping')
        nd = dict(d)
        nd[k] = 7
        agree(mon, t.put(k, 7), nd, kk, vk, 'put %d into %s' % (k, sorted(d)))
        if k in d:
            nd = dict(d)
            del nd[k]
            agree(mon, t.remove(k), nd, kk, vk, 'remove %d from %s' % (k, sorted(d)))
        else:
            mon.raises('remove %d from %s' % (k, sorted(d)), KeyError, t.remove, k)
    mon.state('key set', (space, bits))


class KClash(trees.KHashed):
    """Keys placed by a short digest, so that different keys share a placement"""
    def __init__(self, nbits):
        super().__init__()
        self.nbits = nbits

    def bits(self, k):
        return super().bits(k)[:self.nbits]

    def key2prefix(self, key):
        return super().key2prefix(key)[:self.nbits]


def clashing(rng, mon, i):
    """A key that is not set stays missing, though another with its placement is set"""
    cls, kk, vk, _ = trees.make_mb_class(rng, KClash(rng.choice((1, 2, 3, 5, 8))))
    d, taken = {}, {}
    t = cls()
    for _ in range(rng.choice((1, 2, 4, 12))):
        k = kk.make(rng)
        if taken.setdefault(kk.bits(k), k) == k:
            d[k] = vk.make(rng)
            t = mon.call('put', t.put, k, vk.real(d[k]))
    agree(mon, t, d, kk, vk, 'short placements')
    for _ in range(30):
        k = kk.make(rng)
        lookup(mon, t, d, kk, vk, k, 'short placements')
        if k in d:
            continue
        mon.raises('removing a missing key', KeyError, t.remove, k)
        clash = kk.bits(k) in taken
        nd = dict(d)
        nd[k] = vk.make(rng)
        try:
            nt = t.put(k, vk.real(nd[k]))
        except Exception as e:
            mon.check(clash, 'put of a key with a free placement is refused: %r' % e)
            mon.event('clashing keys refused')
        else:
            agree(mon, nt, nd, kk, vk, 'put of a key with%s clash' % ('' if clash else 'out'))
        mon.state('clash', (clash, k))
    agree(mon, t, d, kk, vk, 'after clashes')


def wrong_items(rng, mon, i):
    """Keys and values of another type are refused, also those equal to what is there"""
    cls, kk, vk, _ = trees.make_mb_class(rng, trees.KEYKINDS[i % len(trees.KEYKINDS)](rng), trees.KINDS[i % len(trees.KINDS)]())
    t, d = new(rng, mon, cls, kk, vk, rng.choice((0, 1, 1, 2, 5)))
    for _ in range(5):
        k, v = some_key(rng, kk, d), vk.make(rng)
        if d and rng.random() < 0.5:
            v = rng.choice(list(d.values()))
        rk, rv = kk.real(k), vk.real(v)
        mon.call('put', t.put, rk, rv)
        cases = [(rk, bad) for bad in trees.impostors(rv)] + [(bad, rv) for bad in trees.impostors(rk)]
        for bk, bv in cases:
            what = 'key of type %s or value of type %s' % (type(bk).__name__, type(bv).__name__)
            # what a key of another type does to the placement is up to key2prefix, before or after the refusal
            errors = (TypeError, ValueError) if bk is rk else Exception
            if rng.random() < 0.5:
                mon.raises(what + ' put', errors, t.put, bk, bv)
            else:
                mon.raises(what + ' in a new tree', errors, cls, [(rk, rv), (bk, bv)])
            mon.state('wrong item', (type(kk).__name__, type(vk).__name__, type(bk).__name__, type(bv).__name__, short(k), short(v)))
        agree(mon, t, d, kk, vk, 'after refusals')
        nd = dict(d)
        nd[k] = v
        t, d = mon.call('put', t.put, rk, rv), nd
        agree(mon, t, d, kk, vk, 'put after refusals')


def hidden(rng, mon, i):
    """Values of which only the commitment is there, put again in full, and the reverse"""
    vk = trees.VBox()
    cls, kk, vk, model = trees.make_mb_class(rng, None, vk)
    t, d = new(rng, mon, cls, kk, vk, rng.choice((1, 1, 2, 3, 5, 9)))
    shown = {k: True for k in d}
    pool = [(t, d, shown)]
    for _ in range(12):
        t, d, shown = rng.choice(pool)
        if rng.random() < 0.3:
            t = cls.deserialize(t.serialize())
        k = some_key(rng, kk, d)
        # the value it has, or another
        v = d[k] if k in d and rng.random() < 0.7 else vk.make(rng)
        real, full = vk.real(v), rng.random() < 0.5
        if not full:
            real = type(real).deserialize(real.prune().serialize())
        nd, ns = dict(d), dict(shown)
        nd[k], ns[k] = v, full
        nt = mon.call('put (%s)' % ('again' if d.get(k) == v else 'new value'), t.put, kk.real(k), real)
        for tree, content, seen in ((nt, nd, ns), (t, d, shown)):
            agree(mon, tree, content, kk, vk, 'values that are not all there')
            for k2 in content:
                got = mon.call('lookup', lambda: tree[kk.real(k2)])
                if seen[k2]:
                    mon.same(mon.call('content of a value that was put whole', lambda: got.n), content[k2], 'content of a value')
                else:
                    mon.raises('content of a value that was put without', PrunedError, lambda: got.n)
        mon.state('hidden', (len(d), d.get(k) == v, full, k))
        pool.append((nt, nd, ns))


def deep(rng, mon, i):
    """Trees of hundreds of levels: each key leaves the path of one long key at another bit"""
    nbytes = rng.choice((33, 40, 48))
    n = 8 * nbytes
    kk = trees.KBytes(nbytes)
    cls, kk, vk, _ = trees.make_mb_class(rng, kk, trees.VUInt(trees.UInt64, 64))
    spine = rng.choice((0, (1 << n) - 1, rng.getrandbits(n)))
    levels = rng.choice((255, 256, 257, n - 1, n))
    start = rng.randrange(n - levels + 1)
    keys = [(spine ^ (1 << (n - 1 - b))).to_bytes(nbytes, 'big') for b in range(start, start + levels)]
    keys.append(spine.to_bytes(nbytes, 'big'))
    d = {k: vk.make(rng) for k in keys}
    order = list(keys)
    rng.shuffle(order)
    if rng.random() < 0.5:
        t = cls([(k, d[k]) for k in order])
    else:
        t = cls()
        for k in order:
            t = t.put(k, d[k])
    mon.eq(len(t), len(d), 'deep tree: length')
    mon.check(dict(t.items()) == d, 'deep tree: items')
    mon.check(all(t[k] == d[k] for k in keys), 'deep tree: value of a key')
    for k in rng.sample(keys, 6) + keys[-3:] + keys[:2]:
        u = mon.call('remove from a deep tree', t.remove, k)
        ud = dict(d)
        del ud[k]
        mon.check(len(u) == len(ud) and dict(u.items()) == ud, 'deep tree: remove')
        mon.raises('deep tree: lookup of a removed key', KeyError, lambda: u[k])
        w = vk.make(rng)
        x = mon.call('put to a deep tree', t.put, k, w)
        mon.check(dict(x.items()) == d | {k: w}, 'deep tree: overwrite')
        y = u.put(k, d[k])
        mon.check(y == t and y.hash == t.hash, 'deep tree: removed and put back')
        mon.state('deep', (levels, k))
    miss = (spine ^ (1 << (n - 1 - rng.randrange(n))) ^ (1 << rng.randrange(n))).to_bytes(nbytes, 'big')
    if miss not in d:
        mon.raises('deep tree: lookup of a missing key', KeyError, lambda: t[miss])
        mon.raises('deep tree: removing a missing key', KeyError, t.remove, miss)


SUITES = [Suite('deep trees', deep, 24, 160), Suite('hidden values', hidden, 1500, 8000), Suite('wrong items', wrong_items, 840, 4200), Suite('shared placements', clashing, 600, 3000), Suite('small key spaces', subsets, 3000, 6000), Suite('histories', history, 4000, 20000)]

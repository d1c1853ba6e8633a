"""Merbinner tree: issubset() is inclusion of mappings"""
from harness.worker import Suite
from harness import gen
from harness.models import trees
from harness.props.c10 import new, some_key
from proofmarshal.proof import PrunedError

RULE = ('pairs of related mappings (sub, super, one value changed, one key swapped, disjoint, equal), whole and pruned, '
        'each answer compared with inclusion of the dictionaries; over the wire, with parts missing, right or PrunedError; all pairs of subsets of a 3-bit key space. '
        'Non-trivial: distinct pairs, by answer.')


def included(a, b):
    return all(k in b and b[k] == v for k, v in a.items())


def related(rng, kk, vk, d):
    e = dict(d)
    r = rng.random()
    for _ in range(rng.choice((0, 1, 1, 2, 5))):
        if e and rng.random() < 0.6:
            del e[rng.choice(list(e))]
    if r < 0.2:
        return e
    for _ in range(rng.choice((0, 1, 1, 3))):
        if e and rng.random() < 0.4:
            e[rng.choice(list(e))] = vk.make(rng)
        else:
            e[some_key(rng, kk, d)] = vk.make(rng)
    return e


def build(rng, cls, kk, vk, d):
    ks = list(d)
    rng.shuffle(ks)
    return cls([(kk.real(k), vk.real(d[k])) for k in ks])


def ask(rng, mon, a, da, b, db, what):
    got = mon.call('issubset', a.issubset, b)
    mon.same(bool(got), included(da, db), what + ': issubset of %d keys in %d' % (len(da), len(db)), da, db)
    mon.check(type(got) is bool, 'issubset does not return a bool', got)
    mon.state('answer %s' % got, (sorted(map(repr, da.items())), sorted(map(repr, db.items()))))


def case(rng, mon, i):
    cls, kk, vk, _ = trees.make_mb_class(rng)
    t, d = new(rng, mon, cls, kk, vk, gen.size(rng, 90, 8))
    pool = [(t, d), (cls(), {})]
    for _ in range(4):
        e = related(rng, kk, vk, rng.choice(pool)[1])
        pool.append((build(rng, cls, kk, vk, e), e))
    for a, da in pool:
        for b, db in pool:
            ask(rng, mon, a, da, b, db, 'whole')
            if rng.random() < 0.5:
                p, q = a.prune(), b.prune()
                ask(rng, mon, *rng.choice(((p, da, b, db), (a, da, q, db), (p, da, q, db))), 'pruned')
    # over the wire, an answer is right or refused
    for _ in range(6):
        a, da = rng.choice(pool)
        b, db = rng.choice(pool)
        if da and rng.random() < 0.4:
            # little on one side
            da = {k: da[k] for k in rng.sample(sorted(da, key=repr), min(len(da), rng.choice((1, 1, 2, 3))))}
            if rng.random() < 0.3:
                da[rng.choice(sorted(da, key=repr))] = vk.make(rng)
            a = build(rng, cls, kk, vk, da)
        sent = [a, b]
        looks = [[], []]
        for n, (t, d) in enumerate(((a, da), (b, db))):
            if rng.random() < (0.45, 0.8)[n]:
                p = t.prune()
                for k in rng.sample(sorted(d, key=repr), min(len(d), rng.choice((0, 0, 1, 2, 4)))):
                    p[kk.real(k)]
                    looks[n].append(k)
                sent[n] = p
        asked = rng.random() < 0.3
        if asked:
            mon.same(bool(mon.call('issubset', sent[0].issubset, sent[1])), included(da, db), 'issubset before sending', da, db)
        p2, q2 = cls.deserialize(sent[0].serialize()), cls.deserialize(sent[1].serialize())
        st, v = mon.outcome('issubset over the wire', p2.issubset, q2, errors=PrunedError)
        mon.state('over the wire: ' + ('refused' if st != 'ok' else str(v)), (p2.serialize(), q2.serialize()))
        if st == 'ok':
            mon.same(bool(v), included(da, db), 'issubset of what was sent', da, db, looks)
        elif asked and sent[0] is not a and sent[1] is not b:
            mon.fail('issubset over the wire is refused where it was asked before sending', (da, db, str(v)))
        st, v = mon.outcome('issubset over the wire, whole right side', p2.issubset, b, errors=PrunedError)
        if st == 'ok':
            mon.same(bool(v), included(da, db), 'issubset of what was sent in the whole', da, db, looks)
    # other types are refused
    ocls, okk, ovk, _ = trees.make_mb_class(rng)
    for bad in (ocls(), new(rng, mon, ocls, okk, ovk, 3)[0], {}, None, 5):
        mon.raises('issubset of a %s' % type(bad), TypeError, a.issubset, bad)


class Needs:
    """The nodes of two trees on which inclusion depends: those where they differ, down to what settles it"""
    def __init__(self, model, da, db):
        self.model, self.da, self.db = model, da, db
        self.a, self.b = set(), set()
        self.answer = self.included(model.tree(da), '', model.tree(db), '')

    def prefix(self, n):
        return n[1] if n[0] == 'inner' else self.model.bits(n[1])

    def included(self, x, px, y, py):
        if x[-1] == y[-1]:
            return True
        if y[0] == 'empty':
            return False
        return self.inside(x, px, y, py)

    def inside(self, x, px, y, py):
        if x[0] == 'empty' or x[-1] == y[-1]:
            return True
        self.a.add(px)
        if x[0] == 'leaf':
            return self.found(x[1], y, py)
        self.b.add(py)
        p, q = self.prefix(x), self.prefix(y)
        if p == q:
            return self.included(x[2], px + 'l', y[2], py + 'l') and self.included(x[3], px + 'r', y[3], py + 'r')
        if p[:len(q)] == q:
            side = p[len(q)]
            return self.inside(x, px, y[3 if side else 2], py + 'lr'[side])
        return False

    def found(self, key, y, py):
        bits = self.model.bits(key)
        while True:
            self.b.add(py)
            if y[0] == 'leaf':
                return y[1] == key and self.db[key] == self.da[key]
            if y[0] == 'empty' or bits[:len(y[1])] != y[1]:
                return False
            side = bits[len(y[1])]
            y, py = y[3 if side else 2], py + 'lr'[side]

    @staticmethod
    def view(t, paths):
        p = t.prune()
        for path in sorted(paths):
            n = p
            for s in path:
                n = n.left if s == 'l' else n.right
            if hasattr(type(n), 'left'):
                n.prefix
            elif hasattr(type(n), 'value'):
                n.key, n.value
        return p


def minimal(rng, mon, i):
    """Copies that hold what decides, and no more"""
    cls, kk, vk, model = trees.make_mb_class(rng)
    while isinstance(kk, trees.KBox) or isinstance(vk, trees.VBox):
        cls, kk, vk, model = trees.make_mb_class(rng)
    t, d = new(rng, mon, cls, kk, vk, gen.size(rng, 60, 10))
    pool = [d, {}]
    for _ in range(4):
        pool.append(related(rng, kk, vk, rng.choice(pool)))
    for _ in range(8):
        da, db = rng.choice(pool), rng.choice(pool)
        if da and rng.random() < 0.5:
            da = {k: da[k] for k in rng.sample(sorted(da, key=repr), min(len(da), rng.choice((1, 2, 3, 8))))}
        a, b = build(rng, cls, kk, vk, da), build(rng, cls, kk, vk, db)
        n = Needs(model, da, db)
        mon.same(n.answer, included(da, db), 'model of inclusion')
        p, q = n.view(a, n.a), n.view(b, n.b)
        ps, qs = p.serialize(), q.serialize()
        p2, q2 = cls.deserialize(ps), cls.deserialize(qs)
        for x, y, what in ((p2, q2, 'both sent'), (p2, b, 'first sent'), (a, q2, 'second sent'), (p, q, 'views')):
            ask(rng, mon, x, da, y, db, 'copies that hold what decides, ' + what)
        mon.state('nodes that decide', (ps, qs))
        mon.event('nodes that decide', len(n.a) + len(n.b))


def small(rng, mon, i):
    cls, kk, vk, _ = small.c if small.c else trees.make_mb_class(rng, trees.KInt(3), trees.VUInt(trees.UInt64, 64))
    small.c = (cls, kk, vk, None)
    da = {k: 5 for k in range(8) if i % 256 >> k & 1}
    a = cls(da)
    for bits in range(256):
        db = {k: 5 for k in range(8) if bits >> k & 1}
        b = small.cache.get(bits)
        if b is None:
            b = small.cache[bits] = cls(db)
        ask(rng, mon, a, da, b, db, 'small')
        if db:
            k = rng.choice(list(db))
            dc = dict(db)
            dc[k] = 6
            ask(rng, mon, a, da, b.put(k, 6), dc, 'small, one value changed')
small.c = None
small.cache = {}

SUITES = [Suite('minimal', minimal, 2000, 12000), Suite('small key space', small, 256, 1024), Suite('related mappings', case, 3000, 18000)]

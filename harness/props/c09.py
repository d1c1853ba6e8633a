"""Merkle mountain range: the commitment is a function of the items alone"""
from harness.worker import Suite
from harness import gen
from harness.models import trees, pm
from harness.props.c08 import new, agree, operate
from proofmarshal.proof import PrunedError

RULE = ('lists reached along different histories (appends, extends, slices, concatenations, the wire) committed and '
        'compared with the recursive definition evaluated on the items; pruned ranges checked item by item. '
        'Non-trivial: distinct commitments and distinct pruned forms.')


def committed(mon, m, items, model, what):
    mon.same(bytes(m.hash), model.hash(items), '%s: commitment of %d items' % (what, len(items)))
    mon.state('commitment', model.hash(items))


def histories(rng, mon, i):
    cls, kind, model = trees.make_mmr_class(rng)
    pool = [(cls(), ())] + [new(rng, mon, cls, kind, gen.size(rng, 300, 20)) for _ in range(2)]
    for _ in range(8):
        operate(rng, mon, pool, cls, kind)
    for m, items in pool:
        committed(mon, m, items, model, 'history')
        direct = cls([kind.real(v) for v in items])
        mon.check(direct == m and hash(direct) == hash(m), 'same items, not equal')
        if len(items) < 400:
            mon.same(m.serialize(), model.ser(items), 'serialized form')
            back = mon.call('deserialize', cls.deserialize, m.serialize())
            committed(mon, back, items, model, 'read back')
            agree(mon, back, items, kind, 'read back')
            v = kind.make(rng)
            committed(mon, back.append(kind.real(v)), items + (v,), model, 'append to one read back')
    for _ in range(3):
        a, b = rng.choice(pool), rng.choice(pool)
        mon.same(a[0] == b[0], a[1] == b[1], 'equality of ranges')


def lengths(rng, mon, i):
    """Every length: by appends, by one extend, by slicing both ends off a longer one"""
    cls, kind, model = trees.make_mmr_class(rng, trees.VUInt(trees.UInt64, 64) if i % 2 else None)
    n = i
    items = tuple(kind.make(rng) for _ in range(n + 7))
    reals = [kind.real(v) for v in items]
    grown = cls()
    for v in reals[:n]:
        grown = grown.append(v)
    committed(mon, grown, items[:n], model, 'grown')
    committed(mon, cls(reals)[0:n], items[:n], model, 'sliced')
    committed(mon, cls(reals)[7:], items[7:], model, 'sliced at the front')
    committed(mon, cls(reals)[3:n], items[3:n], model, 'sliced on both sides')
    k = rng.randint(0, n)
    committed(mon, cls(reals[:k]).extend(cls(reals[k:n])), items[:n], model, 'joined')


def pruned(rng, mon, i):
    """Look up some items of a pruned range, send it, look up again"""
    cls, kind, model = trees.make_mmr_class(rng)
    n = max(1, gen.size(rng, 200, 12))
    items = tuple(kind.make(rng) for _ in range(n))
    if isinstance(kind, trees.VBox):
        kind = trees.VUInt(trees.UInt64, 64)
        cls, kind, model = trees.make_mmr_class(rng, kind)
        items = tuple(kind.make(rng) for _ in range(n))
    m = cls([kind.real(v) for v in items])
    p = m.prune()
    need = set()
    for _ in range(rng.choice((0, 1, 2, 5))):
        k = rng.randrange(n)
        v = mon.call('item %d of a pruned range' % k, lambda: p[k - n if rng.random() < 0.3 else k])
        mon.check(kind.matches(v, items[k]), 'item of a pruned range', k)
        need.add(k)
    ser = mon.call('serialize', p.serialize)
    mon.same(bytes(p.hash), model.hash(items), 'commitment of a pruned range')
    back = mon.call('deserialize', cls.deserialize, ser)
    mon.same(bytes(back.hash), model.hash(items), 'commitment after a trip')
    mon.state('pruned form', ser)
    # exactly the items that were looked up are there
    for k in range(n):
        st, v = mon.outcome('item %d' % k, lambda: back[k], errors=PrunedError)
        if st == 'ok':
            mon.check(kind.matches(v, items[k]), 'item %d of a pruned range sent over' % k, v, items[k])
            mon.check(k in need, 'an item that was never looked up is disclosed', k, sorted(need))
        else:
            mon.check(k not in need, 'an item that was looked up is missing after a trip', k, sorted(need))
    if need:
        mon.eq(len(back), n, 'length')
        mon.raises('index past the end', IndexError, lambda: back[n])
    hidden = [k for k in range(n) if k not in need]
    if hidden and n > 8 and not need:
        mon.raises('item of a fully pruned range', PrunedError, lambda: back[0])


def long(rng, mon, i):
    """Some thousand items, around powers of two and sums of a few"""
    n = sum(2 ** k for k in rng.sample(range(4, 14 if mon.tier == 'quick' else 16), rng.randint(1, 3))) + rng.choice((-1, 0, 0, 1, 2, 3))
    cls, kind, model = trees.make_mmr_class(rng, trees.VUInt(trees.UInt8, 8))
    items = tuple(rng.randbytes(n))
    m = mon.call('construct', cls, items)
    committed(mon, m, items, model, 'long')
    agree(mon, m, items, kind, 'long')
    lo, hi = sorted((rng.randint(0, n), rng.choice((n, rng.randint(0, n), 2 ** rng.randint(4, 12)))))
    part = mon.call('slice', lambda: m[lo:hi])
    committed(mon, part, items[lo:hi], model, 'part of a long one')
    committed(mon, mon.call('join', part.extend, items[:100]), items[lo:hi] + items[:100], model, 'joined')
    for _ in range(50):
        k = rng.randrange(-n, n)
        mon.same(m[k], items[k], 'item %d of %d' % (k, n))
    p = m.prune()
    k = rng.randrange(n)
    mon.same(p[k], items[k], 'item of a long pruned one')
    mon.same(cls.deserialize(p.serialize())[k], items[k], 'item of a long pruned one after a trip')
    mon.state('length', n)


SUITES = [Suite('long', long, 40, 300), Suite('lengths', lengths, 260, 1100), Suite('histories', histories, 2700, 18000), Suite('pruned', pruned, 4800, 25000)]

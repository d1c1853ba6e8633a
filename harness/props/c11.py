"""Merbinner tree: the commitment is a function of the mapping alone"""
from harness.worker import Suite
from harness import gen
from harness.models import trees, pm
from harness.props.c10 import new, operate, agree, lookup, some_key
from proofmarshal.proof import PrunedError

RULE = ('mappings reached along different histories (insertion orders, overwrites, removals, the wire) committed and '
        'compared with the recursive definition evaluated on the mapping; pruned trees answering presence and absence '
        'before and after a trip over the wire. Non-trivial: distinct commitments and distinct pruned forms.')


def committed(mon, t, d, model, what):
    mon.same(bytes(t.hash), model.hash(d), '%s: commitment of %d keys' % (what, len(d)))
    mon.state('commitment', model.hash(d))


def histories(rng, mon, i):
    cls, kk, vk, model = trees.make_mb_class(rng)
    pool = [(cls(), {})] + [new(rng, mon, cls, kk, vk, gen.size(rng, 120, 10)) for _ in range(2)]
    for _ in range(8):
        operate(rng, mon, pool, cls, kk, vk)
    for t, d in pool:
        committed(mon, t, d, model, 'history')
        # another order, with detours
        keys = list(d)
        rng.shuffle(keys)
        o = cls()
        cur = {}
        for k in keys:
            if rng.random() < 0.3:
                x = some_key(rng, kk, d)
                if x not in cur:
                    o = o.put(kk.real(x), vk.real(vk.make(rng)))
                    if x not in d or rng.random() < 0.5:
                        o = mon.call('remove', o.remove, kk.real(x))
                    else:
                        cur[x] = None
            o = o.put(kk.real(k), vk.real(d[k]))
            cur[k] = d[k]
        committed(mon, o, d, model, 'another order')
        mon.check(o == t and hash(o) == hash(t), 'same mapping, not equal')
        mon.same(t.serialize(), model.ser(d), 'serialized form')
        back = mon.call('deserialize', cls.deserialize, t.serialize())
        committed(mon, back, d, model, 'read back')
        agree(mon, back, d, kk, vk, 'read back')
        k = some_key(rng, kk, d)
        nd = dict(d)
        nd[k] = vk.make(rng)
        committed(mon, back.put(kk.real(k), vk.real(nd[k])), nd, model, 'put into one read back')
        if d:
            k = rng.choice(list(d))
            nd = dict(d)
            del nd[k]
            committed(mon, back.remove(kk.real(k)), nd, model, 'remove from one read back')


def pruned(rng, mon, i):
    cls, kk, vk, model = trees.make_mb_class(rng)
    while isinstance(vk, trees.VBox) or isinstance(kk, trees.KBox):
        cls, kk, vk, model = trees.make_mb_class(rng)
    t, d = new(rng, mon, cls, kk, vk, gen.size(rng, 120, 16))
    p = t.prune()
    asked = []
    for _ in range(rng.choice((0, 1, 1, 2, 5))):
        k = some_key(rng, kk, d)
        lookup(mon, p, d, kk, vk, k, 'pruned tree')
        asked.append(k)
    mon.same(bytes(p.hash), model.hash(d), 'commitment of a pruned tree')
    ser = mon.call('serialize', p.serialize)
    back = mon.call('deserialize', cls.deserialize, ser)
    mon.same(bytes(back.hash), model.hash(d), 'commitment after a trip')
    mon.state('pruned form', ser)
    visible = 0
    for k in asked:
        lookup(mon, back, d, kk, vk, k, 'after a trip')
    for k in list(d) + [some_key(rng, kk, d) for _ in range(6)]:
        st, v = mon.outcome('lookup', lambda: back[kk.real(k)], errors=(PrunedError, KeyError))
        if st == 'ok':
            mon.check(k in d and vk.matches(v, d[k]), 'wrong answer after a trip', k, v)
        elif type(v) is KeyError:
            mon.check(k not in d, 'a key of the mapping is reported missing after a trip', k)
    for k in d:
        st, v = mon.outcome('lookup', lambda: back[kk.real(k)], errors=(PrunedError,))
        visible += st == 'ok'
    mon.check(visible <= len(asked), 'more items are disclosed than were looked up', visible, len(asked))


def paths(rng, mon, i):
    """Inner nodes carry the longest common prefix: deep and lopsided trees"""
    cls, kk, vk, model = trees.make_mb_class(rng, trees.KBytes(rng.choice((4, 20, 32))), trees.VUInt(trees.UInt64, 64))
    base = kk.make(rng)
    d = {base: 1}
    for _ in range(rng.randint(1, 40)):
        k = bytearray(base)
        b = rng.randrange(8 * len(k))
        k[b // 8] ^= 0x80 >> (b % 8)
        d[bytes(k)] = rng.randrange(1000)
    t = cls(d)
    committed(mon, t, d, model, 'lopsided')
    agree(mon, t, d, kk, vk, 'lopsided')
    while d:
        k = rng.choice(list(d))
        del d[k]
        t = mon.call('remove', t.remove, k)
        if rng.random() < 0.3 or len(d) < 3:
            committed(mon, t, d, model, 'lopsided, after removals')


SUITES = [Suite('histories', histories, 2400, 15000), Suite('pruned', pruned, 5400, 30000), Suite('lopsided', paths, 1800, 8000)]

"""Proofs do not contradict: not the commitment they claim, and not each other"""
from harness.worker import Suite
from harness import gen
from harness.models import trees, pm, prooflab
from harness.props.c10 import new as new_map, some_key
from proofmarshal.proof import PrunedError
from proofmarshal.serialize import DeserializationError

RULE = ('true proofs damaged or forged at the level of bytes and of structure (children swapped, spliced, relabelled, '
        'lengths and prefixes changed), read back: whatever keeps the true commitment must give true answers; and two '
        'differently pruned copies of arbitrary, also ill-formed, trees must not give different answers to a question. '
        'Non-trivial: distinct forged forms that were accepted by the decoder.')


# -- explicit trees, well-formed or not: [kind, fields...]
def mmr_tree(model, items):
    n = len(items)
    if n == 0:
        return ['empty']
    if n == 1:
        return ['leaf', items[0]]
    k = model.split(n)
    return ['inner', mmr_tree(model, items[:n - k]), mmr_tree(model, items[n - k:]), n]


def mmr_hashes(model, t):
    if t[0] == 'empty':
        dh = pm.sha(b'')
        return dh, pm.sha(model.t_empty + dh)
    if t[0] == 'leaf':
        dh = pm.sha(model.kind.commit(t[1]))
        return dh, pm.sha(model.t_leaf + dh)
    dh = pm.sha(mmr_hashes(model, t[1])[1] + mmr_hashes(model, t[2])[1] + pm.varuint(t[3]))
    return dh, pm.sha(model.t_inner + dh)


def mmr_ser(rng, model, t, p):
    k = ['empty', 'leaf', 'inner'].index(t[0])
    if rng.random() < p:
        return b'\xff' + pm.varuint(k) + mmr_hashes(model, t)[0]
    if k == 0:
        return b'\x00\x00'
    if k == 1:
        return b'\x00\x01' + model.kind.enc(t[1])
    return b'\x00\x02' + mmr_ser(rng, model, t[1], p) + mmr_ser(rng, model, t[2], p) + pm.varuint(t[3])


def mb_tree(model, d):
    def conv(t):
        if t[0] == 'empty':
            return ['empty']
        if t[0] == 'leaf':
            return ['leaf', t[1], d[t[1]]]
        return ['inner', conv(t[2]), conv(t[3]), t[1]]
    return conv(model.tree(d))


def mb_hashes(model, t):
    if t[0] == 'empty':
        dh = pm.sha(b'')
        return dh, pm.sha(model.t_empty + dh)
    if t[0] == 'leaf':
        dh = pm.sha(model.kk.commit(t[1]) + model.vk.commit(t[2]))
        return dh, pm.sha(model.t_leaf + dh)
    dh = pm.sha(pm.enc_bits(t[3]) + mb_hashes(model, t[1])[1] + mb_hashes(model, t[2])[1])
    return dh, pm.sha(model.t_inner + dh)


def mb_ser(rng, model, t, p):
    k = ['empty', 'leaf', 'inner'].index(t[0])
    if rng.random() < p:
        return b'\xff' + pm.varuint(k) + mb_hashes(model, t)[0]
    if k == 0:
        return b'\x00\x00'
    if k == 1:
        return b'\x00\x01' + model.kk.enc(t[1]) + model.vk.enc(t[2])
    return b'\x00\x02' + pm.enc_bits(t[3]) + mb_ser(rng, model, t[1], p) + mb_ser(rng, model, t[2], p)


def nodes(t):
    yield t
    if t[0] == 'inner':
        yield from nodes(t[1])
        yield from nodes(t[2])


def clone(t):
    return [clone(x) if isinstance(x, list) else x for x in t]


def distort(rng, t, leaf_change, extra_change):
    """An ill-formed variation of a tree"""
    t = clone(t)
    for _ in range(rng.choice((1, 1, 2, 3))):
        all_nodes = list(nodes(t))
        x = rng.choice(all_nodes)
        r = rng.random()
        if x[0] == 'inner':
            if r < 0.2:
                x[1], x[2] = x[2], x[1]
            elif r < 0.45:
                x[3] = extra_change(x[3])
            elif r < 0.65:
                y = clone(rng.choice(all_nodes))
                if sum(1 for _ in nodes(t)) + sum(1 for _ in nodes(y)) < 300:
                    x[rng.choice((1, 2))] = y
            elif r < 0.8:
                y = clone(x[rng.choice((1, 2))])
                x[:] = y
            else:
                x[:] = ['empty']
        elif x[0] == 'leaf':
            if r < 0.6:
                x[1:] = leaf_change(x[1:])
            elif r < 0.8:
                x[:] = ['empty']
            else:
                x[:] = ['inner', clone(x), clone(rng.choice(all_nodes)), extra_change(None)]
        else:
            y = clone(rng.choice(all_nodes))
            if len(list(nodes(y))) < 100:
                x[:] = y
    return t


NO_ANSWER = (PrunedError, AssertionError, IndexError, RecursionError, ValueError, AttributeError)


def answers_mmr(mon, obj, queries):
    out = {}
    st, v = mon.outcome('len', len, obj, errors=NO_ANSWER + (OverflowError,))
    if st == 'ok':
        out['len'] = v
    for k in queries:
        st, v = mon.outcome('item', lambda: obj[k], errors=NO_ANSWER)
        if st == 'ok':
            out[k] = ('is', v)
        elif type(v) is IndexError:
            out[k] = ('none',)
    mon.event('queries', len(queries))
    return out


def answers_mb(mon, obj, kk, queries):
    out = {}
    for k in queries:
        st, v = mon.outcome('lookup', lambda: obj[kk.real(k)], errors=NO_ANSWER + (KeyError,))
        if st == 'ok':
            out[k] = ('is', v)
        elif type(v) is KeyError:
            out[k] = ('none',)
    mon.event('queries', len(queries))
    return out


def contradict(mon, a, b, what):
    for k in a:
        if k in b:
            mon.check(a[k] == b[k], what + ': two answers to one question', k, a[k], b[k])
            mon.event('questions answered twice')


def mmr(rng, mon, i):
    cls, kind, model = trees.make_mmr_class(rng)
    n = gen.size(rng, 60, 10)
    items = tuple(kind.make(rng) for _ in range(n))
    root = mmr_tree(model, items)
    commitment = model.hash(items)
    queries = list({rng.randint(-n - 1, n + 1) for _ in range(12)})

    def leaf(f):
        return [kind.make(rng)]

    def extra(x):
        return rng.choice(((x or 2) + 1, max(0, (x or 2) - 1), 0, 1, 2, gen.int_in(rng, 0, 2**40)))
    # forged variations of a true proof
    for _ in range(5):
        forged = distort(rng, root, leaf, extra)
        buf = mmr_ser(rng, model, forged, 0.2)
        if rng.random() < 0.3:
            buf = gen.mutate(rng, mmr_ser(rng, model, root, 0.25))
        st, v = mon.outcome('decode', cls.deserialize, buf, errors=DeserializationError)
        if st != 'ok':
            continue
        mon.state('accepted', buf)
        st, h = mon.outcome('hash', lambda: v.hash, errors=PrunedError)
        if st == 'ok' and h == commitment:
            mon.event('same commitment')
            for k, ans in answers_mmr(mon, v, queries).items():
                if k == 'len':
                    mon.eq(ans, n, 'length proven for the true commitment')
                elif -n <= k < n:
                    mon.check(ans[0] == 'is' and kind.matches(ans[1], items[k]), 'item proven for the true commitment', k, ans)
                else:
                    mon.eq(ans[0], 'none', 'item past the end proven')
        # the model's own hash of the forgery
        if st == 'ok' and buf and forged is not None and h != commitment:
            mon.event('other commitment')
    # two views of one, possibly ill-formed, tree
    t = root if rng.random() < 0.2 else distort(rng, root, leaf, extra)
    views = [cls.deserialize(mmr_ser(rng, model, t, p)) for p in (0.0, 0.15, 0.3, 0.15)]
    h = mmr_hashes(model, t)[1]
    for v in views:
        mon.same(bytes(v.hash), h, 'commitment of a view')
    ans = [answers_mmr(mon, v, queries) for v in views]
    for a in ans:
        for b in ans:
            contradict(mon, a, b, 'views of one range')


def merbinner(rng, mon, i):
    cls, kk, vk, model = trees.make_mb_class(rng)
    t0, d = new_map(rng, mon, cls, kk, vk, gen.size(rng, 40, 8))
    root = mb_tree(model, d)
    commitment = model.hash(d)
    mon.same(bytes(t0.hash), commitment, 'commitment')
    queries = list(dict.fromkeys([some_key(rng, kk, d) for _ in range(12)]))

    def leaf(f):
        return [some_key(rng, kk, d), f[1]] if rng.random() < 0.5 else [f[0], vk.make(rng)]

    def extra(x):
        x = tuple(x) if x is not None else tuple(kk.bits(kk.make(rng))[:rng.randint(0, 8)])
        return rng.choice((x + (rng.randrange(2),), x[:-1], x + x, ()))
    for _ in range(5):
        buf = mb_ser(rng, model, distort(rng, root, leaf, extra), 0.2)
        if rng.random() < 0.3:
            buf = gen.mutate(rng, mb_ser(rng, model, root, 0.25))
        st, v = mon.outcome('decode', cls.deserialize, buf, errors=DeserializationError)
        if st != 'ok':
            continue
        mon.state('accepted', buf)
        st, h = mon.outcome('hash', lambda: v.hash, errors=PrunedError)
        if st == 'ok' and h == commitment:
            mon.event('same commitment')
            for k, ans in answers_mb(mon, v, kk, queries).items():
                if k in d:
                    mon.check(ans[0] == 'is' and vk.matches(ans[1], d[k]), 'value proven for the true commitment', k, ans)
                else:
                    mon.eq(ans[0], 'none', 'presence of a missing key proven')
    t = root if rng.random() < 0.2 else distort(rng, root, leaf, extra)
    views = [cls.deserialize(mb_ser(rng, model, t, p)) for p in (0.0, 0.15, 0.3, 0.15)]
    h = mb_hashes(model, t)[1]
    for v in views:
        mon.same(bytes(v.hash), h, 'commitment of a view')
    ans = [answers_mb(mon, v, kk, queries) for v in views]
    for a in ans:
        for b in ans:
            contradict(mon, a, b, 'views of one mapping')


def structs(rng, mon, i):
    """Arbitrary proof classes: same commitment, same visible content"""
    pool = prooflab.make_pool(rng)
    for _ in range(4):
        node = prooflab.make_node(rng, rng.choice(pool))
        top = node.schema.base.cls if node.schema.base is not None else node.schema.cls
        for _ in range(6):
            buf = node.ser(prooflab.random_view(rng, node))
            if rng.random() < 0.8:
                buf = gen.mutate(rng, buf)
            st, v = mon.outcome('decode', top.deserialize, buf, errors=DeserializationError)
            if st != 'ok':
                continue
            mon.state('accepted', buf)
            st, h = mon.outcome('hash', lambda: v.hash, errors=PrunedError)
            if st == 'ok' and bytes(h) == node.hash:
                mon.event('same commitment')
                agree(mon, v, node)


def agree(mon, obj, node):
    mon.check(isinstance(obj, node.schema.cls), 'class proven for the true commitment', type(obj), node.schema.cls)
    mon.same(bytes(obj.hash), node.hash, 'commitment of a part')
    for n, t in node.schema.attrs:
        v = node.vals[n]
        st, got = mon.outcome('attribute', getattr, obj, n, errors=PrunedError)
        if st == 'ok':
            if isinstance(v, prooflab.Node):
                agree(mon, got, v)
            else:
                prooflab.same_value(mon, got, t, v, 'value proven for the true commitment: ' + n)


SUITES = [Suite('ranges', mmr, 7000, 25000), Suite('mappings', merbinner, 7000, 25000), Suite('structures', structs, 5000, 15000)]

"""Pruning: same commitment, same answers or PrunedError, also after a trip over the wire"""
from harness.worker import Suite
from harness import gen
from harness.models import pm, prooflab, trees
from proofmarshal.proof import PrunedError

RULE = ('random proofs pruned, a random part of them visited in random order (hashes read and the proof serialized at '
        'random moments), serialized, read back and compared node by node with the model: visited parts there, others '
        'refused with PrunedError, commitment unchanged. Non-trivial: distinct pruned serializations.')


class Tracker:
    """What has been visited below a pruned object"""
    def __init__(self, node):
        self.node, self.kids, self.seen = node, {}, False

    def view(self):
        if not self.seen:
            return 'pruned'
        return {n: t.view() for n, t in self.kids.items()}


def visit(rng, mon, obj, tr, depth=0):
    """Read one attribute somewhere below"""
    node = tr.node
    if not node.schema.attrs:
        return
    n, t = rng.choice(node.schema.attrs)
    v = node.vals[n]
    got = mon.call('visit ' + n, getattr, obj, n)
    tr.seen = True
    mon.same(obj.is_fully_pruned, False, 'is_fully_pruned after a visit')
    if isinstance(v, prooflab.Node):
        kt = tr.kids.setdefault(n, Tracker(v))
        mon.check(got is getattr(obj, n), 'an attribute is a different object at each visit')
        probe(rng, mon, got, kt)
        if rng.random() < 0.75:
            visit(rng, mon, got, kt, depth + 1)
    else:
        prooflab.same_value(mon, got, t, v, 'visited ' + n)
    mon.event('visited')


def probe(rng, mon, obj, tr):
    mon.same(obj.is_pruned, True, 'is_pruned of a pruned proof')
    mon.same(obj.is_fully_pruned, not tr.seen, 'is_fully_pruned')
    if rng.random() < 0.4:
        mon.same(bytes(obj.hash), tr.node.hash, 'hash of a pruned proof')
        mon.same(obj.is_fully_pruned, not tr.seen, 'is_fully_pruned after reading the hash')
    if rng.random() < 0.2:
        mon.same(bytes(obj.data_hash), tr.node.data_hash, 'data hash of a pruned proof')


def roundtrip(mon, obj, node, view, what):
    top = node.schema.base.cls if node.schema.base is not None else node.schema.cls
    ser = mon.call('serialize ' + what, obj.serialize)
    mon.same(ser, node.ser(view), 'serialized form of ' + what)
    back = mon.call('deserialize ' + what, top.deserialize, ser)
    mon.check(back == obj and hash(back) == hash(obj), what + ': copy read back is not equal')
    mon.same(back.serialize(), ser, what + ': re-serialized')
    prooflab.walk_view(mon, back, node, view, what)
    mon.same(back.serialize(), ser, what + ': re-serialized after reading')
    mon.state('pruned form', ser)
    return back


def histories(rng, mon, i):
    pool = prooflab.make_pool(rng)
    for _ in range(3):
        node = prooflab.make_node(rng, rng.choice(pool))
        full = node.build()
        if rng.random() < 0.5:
            mon.same(bytes(full.hash), node.hash, 'hash')
        obj = mon.call('prune', full.prune)
        tr = Tracker(node)
        probe(rng, mon, obj, tr)
        if rng.random() < 0.3:
            roundtrip(mon, full.prune(), node, 'pruned', 'a fully pruned proof')
        for _ in range(rng.choice((0, 1, 1, 2, 4, 10, 30))):
            r = rng.random()
            if r < 0.7:
                visit(rng, mon, obj, tr)
            elif r < 0.78:
                mon.raises('unknown attribute', AttributeError, getattr, obj, rng.choice(('nope', '_x', 'Value', 'hash_')))
            elif r < 0.9:
                probe(rng, mon, obj, tr)
            else:
                ser = mon.call('serialize midway', obj.serialize)
                mon.same(ser, node.ser(tr.view()), 'serialized midway')
        mon.check(obj == full and full == obj and hash(obj) == hash(full), 'a pruned proof is not equal to the original')
        if rng.random() < 0.4:
            # a pruned proof pruned: all of the original is there, and the first is as it was
            o2, tr2 = mon.call('prune a pruned proof', obj.prune), Tracker(node)
            for _ in range(rng.choice((0, 1, 4))):
                visit(rng, mon, o2, tr2)
            roundtrip(mon, o2, node, tr2.view(), 'a pruned proof, pruned')
        back = roundtrip(mon, obj, node, tr.view(), 'a pruned proof')
        # prune what was read back, and visit what is left
        again = mon.call('prune again', back.prune)
        t2 = Tracker(node)
        mon.same(bytes(again.hash), node.hash, 'hash after pruning again')
        for _ in range(rng.choice((0, 1, 3, 8))):
            visit_limited(rng, mon, again, node, tr.view(), t2)
        b3 = roundtrip(mon, again, node, t2.view(), 'a twice pruned proof')
        # the original is untouched
        prooflab.walk_full(mon, full, node, 'original')
        mon.same(full.serialize(), node.ser(), 'original serialized')


def visit_limited(rng, mon, obj, node, view, tr):
    """Visit below an object whose own source only has `view`"""
    if not node.schema.attrs:
        return
    n, t = rng.choice(node.schema.attrs)
    v = node.vals[n]
    if view == 'pruned':
        mon.raises('visiting a part that was pruned before', PrunedError, getattr, obj, n)
        mon.same(bytes(obj.hash), node.hash, 'hash after a refused visit')
        return
    got = mon.call('visit ' + n, getattr, obj, n)
    tr.seen = True
    if isinstance(v, prooflab.Node):
        kt = tr.kids.setdefault(n, Tracker(v))
        if rng.random() < 0.75:
            visit_limited(rng, mon, got, v, 'full' if view == 'full' else view.get(n, 'pruned'), kt)
    else:
        prooflab.same_value(mon, got, t, v, 'visited ' + n)


def mixed(rng, mon, i):
    """New proofs built over pruned children"""
    pool = prooflab.make_pool(rng)
    for _ in range(4):
        node = prooflab.make_node(rng, rng.choice(pool))
        views, how = {}, {}

        def kid(child):
            r = rng.randrange(5)
            top = child.schema.base.cls if child.schema.base is not None else child.schema.cls
            name = next(n for n, k in node.kids() if k is child)
            how[name] = r
            if r == 0:
                views[name] = 'full'
                return child.build()
            if r == 1:
                views[name] = 'pruned'
                return child.build().prune()
            if r == 2:
                o, tr = child.build().prune(), Tracker(child)
                for _ in range(4):
                    visit(rng, mon, o, tr)
                views[name] = tr.view()
                return o
            if r == 3:
                views[name] = 'pruned'
                return top.deserialize(child.ser('pruned'))
            views[name] = prooflab.random_view(rng, child)
            return top.deserialize(child.ser(views[name]))
        obj = mon.call('construct over pruned parts', node.build, kid)
        mon.same(bytes(obj.hash), node.hash, 'hash over pruned parts')
        kids_pruned = [getattr(obj, n).is_pruned for n, _ in node.kids()]
        mon.same(obj.is_pruned, any(kids_pruned), 'is_pruned of a proof over pruned parts', kids_pruned)
        mon.same(obj.is_fully_pruned, False, 'is_fully_pruned of a new proof')
        roundtrip(mon, obj, node, dict(views), 'a proof over pruned parts')
        mon.check(obj == node.build(), 'not equal to the same proof over whole parts')
        # a view of it: parts that are lazily pruned can still be looked at, through it and without any effect on it
        reach = {n: v if how[n] in (3, 4) else 'full' for n, v in views.items()}
        view, tr = mon.call('prune', obj.prune), Tracker(node)
        fresh = mon.call('prune a fresh view', view.prune)
        for _ in range(rng.choice((1, 3, 8))):
            visit_limited(rng, mon, view, node, reach, tr)
        used = mon.call('prune a used view', view.prune)
        t2 = Tracker(node)
        for v in (fresh, used):
            mon.same(v.is_fully_pruned, True, 'is_fully_pruned of a view of a view of a proof over pruned parts')
            mon.same(v.serialize(), node.ser('pruned'), 'a view of a view of a proof over pruned parts')
        visit_limited(rng, mon, rng.choice((fresh, used)), node, reach, t2)
        roundtrip(mon, view, node, tr.view(), 'a view of a proof over pruned parts')
        for n, _ in node.kids():
            mon.same(getattr(obj, n).is_fully_pruned, views[n] == 'pruned', 'is_fully_pruned of a part after a view was used')
        roundtrip(mon, obj, node, dict(views), 'a proof over pruned parts, after a view was used')


class VCopy(trees.VBox):
    """Proofs of which some copies are pruned: (n, how), how one of whole, pruned, lazy (visited or not)"""
    def make(self, rng):
        return rng.choice(self.pool), rng.choice(('whole', 'whole', 'pruned', 'lazy', 'seen'))

    def enc(self, v):
        n, how = v
        return b'\x00' + pm.varuint(n) if how in ('whole', 'seen') else b'\xff' + pm.sha(pm.varuint(n))

    def commit(self, v):
        return super().commit(v[0])

    def real(self, v):
        n, how = v
        b = trees.Boxed(n=n)
        if how == 'pruned':
            return trees.Boxed.deserialize(b.prune().serialize())
        if how in ('lazy', 'seen'):
            b = b.prune()
            if how == 'seen':
                b.n
        return b


def copy_check(mon, got, v, what):
    n, how = v
    mon.same(bytes(got.hash), trees.VBox.commit(None, n), what + ': hash')
    mon.same(got.is_pruned, how != 'whole', '%s (%s): is_pruned' % (what, how))
    mon.same(got.is_fully_pruned, how in ('pruned', 'lazy'), '%s (%s): is_fully_pruned' % (what, how))
    if how == 'pruned':
        mon.raises(what + ': reading a pruned copy', PrunedError, getattr, got, 'n')
    elif how != 'lazy':
        mon.same(mon.call(what + ': reading a copy that is not pruned', getattr, got, 'n'), n, what)


def copies(rng, mon, i):
    """Whole and pruned copies of equal proofs in one list or mapping: each stays as it was given"""
    kind = VCopy()
    kind.pool = [gen.int_in(rng, 0, 2**64 - 1) for _ in range(rng.choice((1, 1, 2, 4)))]
    cls, _, model = trees.make_mmr_class(rng, kind)
    want = []
    m = cls()
    for _ in range(rng.choice((1, 2, 3, 5, 9, 20))):
        new = [kind.make(rng) for _ in range(rng.choice((1, 1, 2, 3)))]
        reals = [kind.real(v) for v in new]
        m = mon.call('append', m.append, reals[0]) if len(new) == 1 else mon.call('extend', m.extend, reals)
        want += new
    mon.same(m.is_pruned, any(how != 'whole' for _, how in want), 'is_pruned of a list of copies', want)
    mon.same(m.serialize(), model.ser(want), 'serialized form of a list of copies')
    lo = rng.randint(0, len(want))
    hi = rng.randint(lo, len(want))
    part = mon.call('slice', lambda: m[lo:hi])
    mon.same(part.serialize(), model.ser(want[lo:hi]), 'serialized form of a part of a list of copies')
    for k in rng.sample(range(len(want)), len(want)):
        copy_check(mon, m[k], want[k], 'copy in a list')
    back = mon.call('deserialize', cls.deserialize, m.serialize())
    for k, (n, how) in enumerate(want):
        if how in ('whole', 'seen'):
            mon.same(mon.call('item after a trip', lambda: back[k].n), n, 'item after a trip')
        else:
            mon.raises('pruned item after a trip', PrunedError, lambda: back[k].n)
    # the same in a mapping
    mcls, kk, _, mm = trees.make_mb_class(rng, trees.KInt(8), kind)
    d = {}
    t = mcls()
    for v in want:
        k = rng.randrange(256)
        if k not in d:
            d[k] = v
            t = mon.call('put', t.put, k, kind.real(v))
    mon.same(t.is_pruned, any(how != 'whole' for _, how in d.values()), 'is_pruned of a mapping of copies')
    mon.same(t.serialize(), mm.ser(d), 'serialized form of a mapping of copies')
    for k in d:
        copy_check(mon, t[k], d[k], 'copy in a mapping')
    mon.state('copies', want)


SUITES = [Suite('copies', copies, 4000, 12000), Suite('histories', histories, 12000, 35000), Suite('mixed', mixed, 7000, 20000)]

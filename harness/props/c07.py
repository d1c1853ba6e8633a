"""Proofs are immutable, and using them changes neither them nor their parts"""
from harness.worker import Suite
from harness import gen
from harness.models import prooflab, trees, immut
from harness.props.c06 import Tracker, visit
from proofmarshal.proof import Proof, PrunedError
from proofmarshal.serialize import HashTag

RULE = ('every attribute (declared, internal, new) of random proofs, whole, pruned and read back, assigned and deleted; '
        'then uses of the proof in random order; content and commitment compared with the model afterwards; pruned views '
        'of proofs, lists and mappings, in-place operators and mutating methods of every kind of value: only visiting changes what is in view (serialized form against the model). '
        'Non-trivial: distinct (attribute, kind of object) attacks.')


def attack(rng, mon, obj, node, kind):
    names = [n for n, _ in node.schema.attrs] + ['hash', 'data_hash', 'is_pruned', 'is_fully_pruned', 'HASHTAG', 'SERIALIZED_ATTRS',
                                                 '_Proof__orig_instance', 'brand_new', '__class__', 'prune', 'calc_hash',
                                                 '_private', '__dunder__', '__doc__', '__dict__', '__hash__', '__eq__', '__slots__', '_', 'serialize', '__class__']
    rng.shuffle(names)
    other = prooflab.make_node(rng, node.schema).build()
    for n in names:
        v = rng.choice((None, 0, b'\x00' * 32, True, other, other.hash))
        if n == '__class__':
            v = rng.choice((type(obj), type(other), Proof))
        elif n == '__dict__':
            v = rng.choice(({}, {'hash': b''}))
        mon.raises('assigning %s of a %s proof' % (n, kind), TypeError, setattr, obj, n, v)
        mon.raises('deleting %s of a %s proof' % (n, kind), TypeError, delattr, obj, n)
        mon.state('attack', (n, kind))


def case(rng, mon, i):
    pool = prooflab.make_pool(rng)
    for _ in range(2):
        node = prooflab.make_node(rng, rng.choice(pool))
        top = node.schema.base.cls if node.schema.base is not None else node.schema.cls
        full = node.build()
        if rng.random() < 0.5:
            full.hash
        attack(rng, mon, full, node, 'whole')
        prooflab.walk_full(mon, full, node, 'after the attack')
        p = full.prune()
        attack(rng, mon, p, node, 'pruned')
        mon.same(bytes(p.hash), node.hash, 'hash after the attack')
        view = prooflab.random_view(rng, node)
        d = top.deserialize(node.ser(view))
        attack(rng, mon, d, node, 'read back')
        prooflab.walk_view(mon, d, node, view, 'after the attack')
        for path, n in prooflab.find_paths(node):
            o = full
            for name in path:
                o = getattr(o, name)
            attack(rng, mon, o, n, 'inner')
        # uses leave everything as it was
        for _ in range(12):
            r = rng.randrange(9)
            if r == 0: p.serialize()
            elif r == 1: full.serialize()
            elif r == 2: hash(full), hash(p)
            elif r == 3: full == p, full != d
            elif r == 4: full.prune().serialize()
            elif r == 5: repr(full), repr(p)
            elif r == 6:
                q = full.prune()
                for n, _ in node.schema.attrs:
                    getattr(q, n)
            elif r == 7: top.deserialize(full.serialize())
            else: d.prune().hash
            mon.event('uses')
        prooflab.walk_full(mon, full, node, 'after uses')
        mon.same(full.serialize(), node.ser(), 'serialized form after uses')
        prooflab.walk_view(mon, d, node, view, 'read back, after uses')


def inert(rng, mon, p, full, what, can_repr=True):
    """Uses that look at nothing inside"""
    for _ in range(rng.choice((1, 2, 4))):
        r = rng.randrange(8)
        if r == 0: mon.call(what + ': repr', repr, p)
        elif r == 1: hash(p)
        elif r == 2: mon.check(p == full and full == p and not p != full, what + ': not equal to the original')
        elif r == 3: mon.call(what + ': serialize', p.serialize)
        elif r == 4: p.hash, p.data_hash, p.get_hash()
        elif r == 5: p.is_pruned, p.is_fully_pruned
        elif r == 6: mon.call(what + ': str', str, p)
        else: mon.call(what + ': prune', p.prune).serialize()
        mon.state('inert use', (what, r, p.is_fully_pruned))


def views(rng, mon, i):
    """What is in view changes by visiting only"""
    pool = prooflab.make_pool(rng)
    for _ in range(3):
        node = prooflab.make_node(rng, rng.choice(pool))
        full = node.build()
        p, tr = full.prune(), Tracker(node)
        for _ in range(rng.choice((0, 1, 2, 5))):
            visit(rng, mon, p, tr)
        derived = []
        for _ in range(rng.choice((1, 3, 6))):
            r = rng.random()
            if r < 0.4:
                inert(rng, mon, p, full, 'view')
            elif r < 0.6:
                # a view of the view lives its own life
                derived.append((mon.call('prune a view', p.prune), Tracker(node)))
            elif r < 0.8 and derived:
                q, t2 = rng.choice(derived)
                visit(rng, mon, q, t2)
            elif r < 0.9:
                # so does one that is reached through a larger proof
                class Holder(Proof):
                    __slots__ = ['it', 'also']
                    HASHTAG = HashTag(prooflab.rand_uuid(rng))
                    SERIALIZED_ATTRS = [('it', node.schema.cls), ('also', node.schema.cls)]
                h = mon.call('a proof over a view', lambda: Holder(it=p, also=full))
                mon.check(h.it is p and h.also is full, 'parts are not the ones given')
                hp = h.prune()
                derived.append((hp.it, Tracker(node)))
                derived.append((hp.also, Tracker(node)))
            else:
                visit(rng, mon, p, tr)
            mon.same(p.serialize(), node.ser(tr.view()), 'what is in view of a pruned proof')
            for q, t2 in derived:
                mon.same(q.serialize(), node.ser(t2.view()), 'what is in view of a derived view')
        mon.state('view', p.serialize())
        prooflab.walk_full(mon, full, node, 'original')
        top = node.schema.base.cls if node.schema.base is not None else node.schema.cls
        d = top.deserialize(p.serialize())
        inert(rng, mon, d, full, 'view read back')
        mon.same(d.serialize(), node.ser(tr.view()), 'what is in view of a view that was read back')


def tree_views(rng, mon, i):
    """The same for lists and mappings: a view is the original pruned and looked at in the same places"""
    if rng.random() < 0.5:
        cls, kind, model = trees.make_mmr_class(rng)
        items = tuple(kind.make(rng) for _ in range(gen.size(rng, 60, 9)))
        full = cls([kind.real(v) for v in items])
        places = list(range(len(items)))

        def look(o, k):
            mon.check(kind.matches(mon.call('item', lambda: o[k]), items[k]), 'item of a view')
    else:
        cls, kk, vk, model = trees.make_mb_class(rng)
        d = {}
        for _ in range(gen.size(rng, 60, 9)):
            d[kk.make(rng)] = vk.make(rng)
        full = cls([(kk.real(k), vk.real(v)) for k, v in d.items()])
        places = sorted(d, key=repr)

        def look(o, k):
            mon.check(vk.matches(mon.call('lookup', lambda: o[kk.real(k)]), d[k]), 'value in a view')
    whole = full.serialize()
    views = [(full.prune(), [])]
    for _ in range(rng.choice((3, 6, 10))):
        o, looks = rng.choice(views)
        r = rng.random()
        if r < 0.35 and places:
            k = rng.choice(places)
            look(o, k)
            looks.append(k)
        elif r < 0.75:
            inert(rng, mon, o, full, 'view of a tree')
        else:
            views.append((mon.call('prune a view', o.prune), []))
        for o, looks in views:
            ref = full.prune()
            for k in looks:
                look(ref, k)
            mon.same(o.serialize(), ref.serialize(), 'what is in view of a pruned tree', looks)
    mon.same(full.serialize(), whole, 'the original')
    for o, looks in views:
        ser = o.serialize()
        mon.state('view', ser)
        back = cls.deserialize(ser)
        inert(rng, mon, back, full, 'view of a tree read back')
        mon.same(back.serialize(), ser, 'what is in view of a tree that was read back')


def in_place(rng, mon, i):
    """In-place operators, and methods that lists and dictionaries are changed with"""
    which = i % 3
    if which == 0:
        pool = prooflab.make_pool(rng)
        node = prooflab.make_node(rng, rng.choice(pool))
        full, other = node.build(), prooflab.make_node(rng, node.schema).build()
        cls = node.schema.base.cls if node.schema.base is not None else node.schema.cls
        operands = [other, full, 1, [other], b'x', {}]
    elif which == 1:
        cls, kind, model = trees.make_mmr_class(rng)
        items = [kind.real(kind.make(rng)) for _ in range(rng.choice((0, 1, 2, 3, 4, 7, gen.size(rng, 30, 9))))]
        full = mon.call('construct', cls, items)
        mon.call('extend', full.extend, items)
        operands = [[kind.real(kind.make(rng))], cls([kind.real(kind.make(rng)) for _ in range(3)]), full, 2, kind.real(kind.make(rng)), (), []]
    else:
        cls, kk, vk, model = trees.make_mb_class(rng)
        d = {}
        for _ in range(rng.choice((0, 1, 2, 3, gen.size(rng, 30, 9)))):
            d[kk.make(rng)] = vk.make(rng)
        pairs = [(kk.real(k), vk.real(v)) for k, v in d.items()]
        full = mon.call('construct', cls, pairs)
        if all(k.__hash__ for k, v in pairs):
            mon.call('construct from a dict', cls, dict(pairs))
        keys = sorted(d, key=repr)[:2] + [kk.make(rng)]
        pairs = [(kk.real(k), vk.real(vk.make(rng))) for k in keys]
        operands = [dict(pairs[:1]) if kk.real(keys[0]).__hash__ else pairs, pairs, cls(pairs), full, kk.real(rng.choice(keys)), pairs[-1][1], 2]
    whole, h = full.serialize(), bytes(full.hash)
    if rng.random() < 0.5:
        # one that has not been hashed yet
        full = cls.deserialize(whole)
    view = full.prune()
    seen = view.prune().serialize()
    got = []

    def content(o, what):
        mon.same(bytes(o.hash), h, what + ': hash')
        mon.same(o.serialize(), whole, what + ': serialized form')
        fresh = cls.deserialize(o.serialize())
        mon.same(bytes(fresh.hash), h, what + ': commitment of what it holds')
        mon.check(type(o) is type(fresh), what + ': type')
    mon.same(view.serialize(), seen, 'a fresh view')
    back = cls.deserialize(whole)
    for o, what in ((full, 'whole'), (back, 'read back')):
        immut.operators(rng, mon, o, operands, what)
        content(o, what + ', after in-place operators')
        immut.methods(rng, mon, o, operands, what)
        content(o, what + ', after methods')
    # a view may get more in view, and stays a view of the same
    immut.operators(rng, mon, view, operands, 'view')
    immut.methods(rng, mon, view, operands, 'view')
    mon.same(bytes(view.hash), h, 'view: hash')
    sent = cls.deserialize(view.serialize())
    mon.same(bytes(sent.hash), h, 'view: hash when read back')
    if not sent.is_fully_pruned:
        for n, ser_cls in type(sent).SERIALIZED_ATTRS:
            mon.check(ser_cls.serialize(getattr(sent, n)) == ser_cls.serialize(getattr(view, n)), 'view: ' + n)
    content(full, 'the original of a view')


def arguments(rng, mon, i):
    """What a tree is made from stays as it was, of any length"""
    n = rng.choice((0, 1, 3, 17, 100, 257, 300, 520, 700, 1030))
    if i % 2:
        cls, kind, model = trees.make_mmr_class(rng)
        items = [kind.real(kind.make(rng)) for _ in range(min(n, 40))]
        while len(items) < n:
            items.append(rng.choice(items))
        forms = [items]
    else:
        cls, kk, vk, model = trees.make_mb_class(rng)
        d = {}
        for _ in range(n):
            d[kk.make(rng)] = vk.make(rng)
        items = [(kk.real(k), vk.real(v)) for k, v in d.items()]
        forms = [items]
        if all(k.__hash__ for k, v in items):
            forms.append(dict(items))
    got = []
    for form in forms:
        was = list(form.items()) if type(form) is dict else list(form)
        got.append(bytes(mon.call('construct', cls, form).hash))
        if i % 2:
            got.append(bytes(mon.call('extend', cls().extend, form).hash))
        now = list(form.items()) if type(form) is dict else list(form)
        mon.check(len(was) == len(now), 'length of the %s a tree was made from' % type(form).__name__)
        mon.check(all(a is b if i % 2 else a[0] is b[0] and a[1] is b[1] for a, b in zip(was, now)), 'items of the %s a tree was made from' % type(form).__name__)
        mon.state('arguments', (i % 2, len(was), type(form).__name__))
    got.append(bytes(cls(tuple(items)).hash))
    mon.check(len(set(got)) == 1, 'trees made of the same things')


SUITES = [Suite('attacks', case, 6000, 25000), Suite('views', views, 6000, 25000), Suite('tree views', tree_views, 6000, 25000), Suite('in place', in_place, 2400, 12000), Suite('arguments', arguments, 96, 400)]

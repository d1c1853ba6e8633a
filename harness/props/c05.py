"""Commitments: hashes follow the specification, identify content, separate domains"""
import uuid
from harness.worker import Suite
from harness.monitor import short
from harness import gen
from harness.models import collide, pm, prooflab
from harness.props import c03
from proofmarshal.serialize import HashTag, SerializerTypeError, SerializerValueError

RULE = ('random proof class hierarchies (structs, inheritance, variant families, unions) with random instances; every '
        'hash compared with an independent calculation, near-copies compared for inequality, and twin classes for '
        'domain separation. Non-trivial: distinct commitments computed.')


def commit(rng, mon, i):
    pool = prooflab.make_pool(rng)
    for _ in range(4):
        node = prooflab.make_node(rng, rng.choice(pool))
        obj = mon.call('construct', node.build)
        if rng.random() < 0.5:
            mon.same(bytes(obj.data_hash), node.data_hash, 'data hash')
        mon.same(bytes(obj.hash), node.hash, 'hash')
        mon.same(bytes(type(obj).get_hash(obj)), node.hash, 'get_hash')
        prooflab.walk_full(mon, obj, node, 'built')
        mon.state('commitment', node.hash)
        ser = mon.call('serialize', obj.serialize)
        mon.same(ser, node.ser(), 'serialized form')
        top = node.schema.base.cls if node.schema.base is not None else node.schema.cls
        back = mon.call('deserialize', top.deserialize, ser)
        prooflab.walk_full(mon, back, node, 'read back')
        mon.same(back.serialize(), ser, 're-serialized')
        mon.check(back == obj and hash(back) == hash(obj) and not (back != obj), 'copy read back is not equal')
        mon.check(len({back, obj}) == 1, 'equal proofs are distinct set members')
        # a second instance with the same content
        twin = node.build()
        mon.check(twin == obj and hash(twin) == hash(obj), 'same content, not equal')
        # change one thing anywhere
        other = change_one(rng, node)
        if other is not None:
            o2 = other.build()
            mon.same(bytes(o2.hash), other.hash, 'hash of the changed copy')
            mon.check(o2 != obj and not (o2 == obj), 'different content, equal', node.vals, other.vals)
            mon.state('commitment', other.hash)
        for foreign in (None, 0, node.hash, b'', object()):
            mon.check(obj != foreign and not (obj == foreign), 'equal to a %s' % type(foreign))


def change_one(rng, node):
    """A copy of the model with one primitive value changed"""
    paths = [(p, n, name, t) for p, n in prooflab.find_paths(node) for name, t in n.schema.attrs if t[0] == 'prim']
    rng.shuffle(paths)
    for path, n, name, t in paths:
        v = n.vals[name]
        for _ in range(4):
            w = prooflab.prim_value(rng, t)
            if rng.random() < 0.6:
                if type(v) is bytes and v:
                    k = rng.randrange(len(v))
                    w = v[:k] + bytes([v[k] ^ (1 << rng.randrange(8))]) + v[k + 1:]
                elif type(v) is int:
                    w = v ^ (1 << rng.randrange(max(1, t[2][1])))
                elif type(v) is tuple and v:
                    k = rng.choice((len(v) - 1, rng.randrange(len(v))))
                    w = v[:k] + (1 - v[k],) + v[k + 1:] if rng.random() < 0.6 else v + (0,)
            if w != v and (type(v) is not int or 0 <= w < 2**t[2][1]):
                return rebuild(node, path, name, w)
    return None


def rebuild(node, path, name, w):
    vals = dict(node.vals)
    if path:
        vals[path[0]] = rebuild(vals[path[0]], path[1:], name, w)
    else:
        vals[name] = w
    return prooflab.Node(node.schema, vals)


def tags(rng, mon, i):
    """Tag derivation and tagged hashing"""
    for _ in range(20):
        u = prooflab.rand_uuid(rng)
        if rng.random() < 0.3:
            b = gen.blob(rng, 16)
            u = str(uuid.UUID(bytes=b))
        t = HashTag(u)
        raw = pm.tag(u)
        mon.eq(bytes(t), raw, 'tag bytes')
        mon.eq(str(t), u, 'str(tag)')
        mon.eq(eval(repr(t)), t, 'repr(tag)')
        msg = gen.data(rng, 3000, 60)
        h = t(msg)
        mon.same(h.digest(), pm.sha(raw + msg), 'tagged hash')
        mon.same(t().digest(), pm.sha(raw), 'tagged hash of nothing')
        h.update(b'x')
        mon.same(h.digest(), pm.sha(raw + msg + b'x'), 'incremental tagged hash')
        sub = HashTag(prooflab.rand_uuid(rng)) if rng.random() < 0.7 else gen.data(rng, 80, 20)
        d = mon.call('derive', t.derive, sub)
        mon.check(type(d) is HashTag, 'derived tag type')
        mon.eq(bytes(d), pm.derive(raw, bytes(sub)), 'derived tag')
        dd = d.derive(t)
        mon.eq(bytes(dd), pm.derive(bytes(d), raw), 'twice derived tag')
        mon.same(d(msg).digest(), pm.sha(bytes(d) + msg), 'hash under a derived tag')
        mon.check(d != t, 'derivation is the identity')
        mon.state('tag', bytes(d))


def separation(rng, mon, i):
    """Classes that differ only in their tag, or variants with the same fields"""
    attrs = prooflab.make_attrs(rng, [], 0) or [('a', ('prim', prooflab.BitsSerializer, None))]
    from proofmarshal.proof import Proof, VarProof
    vals = {n: prooflab.prim_value(rng, t) for n, t in attrs}
    seen = {}
    for _ in range(4):
        u = prooflab.rand_uuid(rng)
        s = prooflab.Schema(prooflab.make_class(rng, (Proof,), attrs, 'HASHTAG', HashTag(u)), pm.tag(u), attrs)
        nodes = [prooflab.Node(s, vals)]
        v = prooflab.VarSchema(type('LV', (VarProof,), {'HASHTAG': HashTag(u), '__slots__': []}))
        for k in range(rng.choice((2, 2, 6))):
            su = prooflab.rand_uuid(rng)
            cls = v.cls.declare_variant(prooflab.make_class(rng, (v.cls,), attrs, 'SUB_HASHTAG', HashTag(su)))
            nodes.append(prooflab.Node(prooflab.Schema(cls, pm.derive(pm.tag(su), pm.tag(u)), attrs, v, k), vals))
        for node in nodes:
            obj = node.build()
            h = bytes(obj.hash)
            mon.same(h, node.hash, 'hash')
            mon.check(h not in seen, 'two classes give the same commitment', node.schema.cls)
            for o in seen.values():
                mon.check(o != obj, 'instances of two classes are equal')
            seen[h] = obj
            mon.state('separated', h)


def types(rng, mon, i):
    """Attributes of the wrong type or out of range are refused at construction"""
    pool = prooflab.make_pool(rng)
    node = prooflab.make_node(rng, rng.choice(pool))
    for path, n in prooflab.find_paths(node):
        for name, t in n.schema.attrs:
            good = {k: (v.build() if isinstance(v, prooflab.Node) else
                        (prooflab.Bits(v) if dict(n.schema.attrs)[k][2] is None else v)) for k, v in n.vals.items()}
            if t[0] == 'prim':
                bad = None if t[2] is None else c03.any_value(rng, t[2])
                want = SerializerTypeError if t[2] is None else c03.verdict(t[2], bad)
                if want is None:
                    continue
            else:
                allowed = tuple(m.cls for m in t[1]) if t[0] == 'union' else (t[2],)
                others = [p for p in pool if isinstance(p, prooflab.Schema) and not issubclass(p.cls, allowed)]
                if others and rng.random() < 0.6:
                    bad = prooflab.make_node(rng, rng.choice(others)).build()
                else:
                    bad = rng.choice((None, 0, b'\x00' * 32, 'x', n.hash))
                want = SerializerTypeError
            kw = dict(good)
            kw[name] = bad
            mon.raises('constructing with a bad %s' % name, want, lambda: n.schema.cls(**kw))
            mon.state('refused', (t[0], short(bad, 40)))


class Anything:
    """Decides comparisons itself, as placeholders and wrappers do"""
    def __init__(self, verdict):
        self.verdict, self.asked = verdict, []

    def __eq__(self, other):
        self.asked.append(other)
        return self.verdict

    __hash__ = None


def outsiders(rng, mon, i):
    """Instances that do not belong where they are put, and objects that are not proofs"""
    from proofmarshal.proof import Proof, ProofUnion, VarProof
    from proofmarshal.serialize import BytesSerializationContext, UInt8
    pool = prooflab.make_pool(rng)
    node = prooflab.make_node(rng, rng.choice(pool))
    obj = node.build()
    verdict = rng.random() < 0.5
    for x in (obj, obj.prune()):
        a = Anything(verdict)
        mon.same((x == a), verdict, 'proof == object that decides comparisons itself')
        mon.same((a == x), verdict, 'object that decides comparisons itself == proof')
        mon.check(len(a.asked) == 2 and a.asked[0] is x, 'the other side was not asked')
        mon.same((x in [a], [a].count(x)), (verdict, int(verdict)), 'membership in a list')
    # a union serializes only its members
    attrs = prooflab.make_attrs(rng, [], 0)
    structs = [prooflab.Schema(prooflab.make_class(rng, (Proof,), attrs, 'HASHTAG', HashTag(prooflab.rand_uuid(rng))), None, attrs)
               for _ in range(3)]
    vals = {n: prooflab.prim_value(rng, t) for n, t in attrs}
    inst = [prooflab.Node(s, vals) for s in structs]
    union = ProofUnion(*[s.cls for s in structs[:2]])
    for k, n in enumerate(inst):
        o = n.schema.cls(**{a: (prooflab.Bits(vals[a]) if t[2] is None else vals[a]) for a, t in attrs})
        o = o.prune() if rng.random() < 0.3 else o
        ctx = BytesSerializationContext()
        if k < 2:
            mon.call('union.check_instance', union.check_instance, o)
            mon.call('union.ctx_serialize', union.ctx_serialize, o, ctx)
            mon.same(ctx.getbytes(), pm.varuint(k) + o.serialize(), 'serialized union')
            back = union.deserialize(ctx.getbytes())
            mon.check(type(back) is structs[k].cls, 'class read back from a union')
        else:
            mon.raises('checking an outsider of a union', SerializerTypeError, union.check_instance, o)
            mon.raises('serializing an outsider of a union', SerializerTypeError, union.ctx_serialize, o, ctx)
            mon.same(ctx.getbytes(), b'', 'something was written for an outsider')
    # only classes of the family can be declared as its variants, and only those are serialized
    fam = type('LabFam', (VarProof,), {'HASHTAG': HashTag(prooflab.rand_uuid(rng)), '__slots__': []})
    one = fam.declare_variant(prooflab.make_class(rng, (fam,), attrs, 'SUB_HASHTAG', HashTag(prooflab.rand_uuid(rng))))
    for bad in (structs[0].cls, Proof, UInt8, object, int):
        mon.raises('declaring %s a variant' % bad, TypeError, fam.declare_variant, bad)
    mon.check(fam.UNION_CLASSES == [one] and structs[0].cls.HASHTAG is not None, 'a refused variant was declared')
    stray = prooflab.make_class(rng, (fam,), attrs, 'SUB_HASHTAG', HashTag(prooflab.rand_uuid(rng)))
    stray.HASHTAG = stray.SUB_HASHTAG.derive(fam.HASHTAG)
    o = stray(**{a: (prooflab.Bits(vals[a]) if t[2] is None else vals[a]) for a, t in attrs})
    mon.raises('checking an undeclared variant', SerializerTypeError, fam.check_instance, o)
    for x in (o, o.prune()):
        mon.raises('serializing an undeclared variant', SerializerTypeError, x.serialize)
    mon.state('outsiders', bytes(o.hash))


def namesakes(rng, mon, i):
    """Classes that have the same name (as the variants of all ranges and trees have) and differ in their tag"""
    from proofmarshal.proof import Proof, VarProof
    from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
    from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
    from proofmarshal.serialize import FixedBytes
    from proofmarshal.bits import Bits
    attrs = prooflab.make_attrs(rng, [], 0) or [('a', ('prim', prooflab.BitsSerializer, None))]
    vals = {n: prooflab.prim_value(rng, t) for n, t in attrs}
    items = [gen.blob(rng, 2) for _ in range(rng.choice((0, 1, 1, 2, 3, 5)))]
    pairs = {gen.blob(rng, 2): gen.blob(rng, 1) for _ in range(rng.choice((0, 1, 1, 2, 3)))}
    groups = {}
    for _ in range(3):
        tag = HashTag(prooflab.rand_uuid(rng))
        ns = {'HASHTAG': tag, '__slots__': [n for n, _ in attrs], '__module__': 'lab', 'SERIALIZED_ATTRS': [(n, t[1]) for n, t in attrs]}
        groups.setdefault('proof', []).append(prooflab.Node(prooflab.Schema(type('Same', (Proof,), ns), b'', attrs), vals).build())
        v = type('SameV', (VarProof,), {'HASHTAG': tag, '__slots__': [], '__module__': 'lab'})
        ns = dict(ns, SUB_HASHTAG=HashTag('e5690d73-16e3-4f8f-bd4f-148c32d37ba0'))
        del ns['HASHTAG']
        groups.setdefault('variant', []).append(prooflab.Node(prooflab.Schema(v.declare_variant(type('Same', (v,), ns)), b'', attrs, prooflab.VarSchema(v), 0), vals).build())
        m = make_mmr_subclass(type('SameM', (MerkleMountainRange,), {'HASHTAG': tag, 'VALUE_SERIALIZER': FixedBytes(2), '__module__': 'lab'}))
        groups.setdefault('range', []).append(m(items))
        t = make_MerbinnerTree_subclass(type('SameT', (MerbinnerTree,), {'HASHTAG': tag, 'KEY_SERIALIZER': FixedBytes(2), 'VALUE_SERIALIZER': FixedBytes(1), '__module__': 'lab',
                                                                         'key2prefix': staticmethod(Bits.from_bytes)}))
        groups.setdefault('tree', []).append(t(pairs))
    from proofmarshal.proof import ProofUnion
    for kind, objs in groups.items():
        # an attribute declared as one of the classes does not take instances of the others
        decl = [(type(o) if kind == 'proof' else type(o).__mro__[1]) for o in objs]
        j = rng.randrange(3)
        for ser in (decl[j], ProofUnion(decl[j]), ProofUnion(decl[j], decl[j - 1])):
            holder = type('Holder', (Proof,), {'HASHTAG': HashTag(prooflab.rand_uuid(rng)), '__slots__': ['x'], '__module__': 'lab', 'SERIALIZED_ATTRS': [('x', ser)]})
            for k, o in enumerate(objs):
                o = rng.choice((o, o.prune()))
                if k == j or (ser.__dict__.get('UNION_CLASSES', ())[1:2] == (decl[j - 1],) and k == (j - 1) % 3):
                    mon.same(bytes(mon.call('construct', holder, x=o).x.hash), bytes(o.hash), 'attribute')
                else:
                    mon.raises('an instance of another class of the name (%s)' % kind, SerializerTypeError, lambda: holder(x=o))
        objs = [rng.choice((o, o.prune(), type(o).deserialize(o.serialize()), type(o).deserialize(o.prune().serialize()))) for o in objs]
        for j, a in enumerate(objs):
            for b in objs[:j]:
                mon.check(bytes(a.hash) != bytes(b.hash), 'two classes of one name give the same commitment', kind)
                mon.check(a != b and not (a == b) and b != a, 'instances of two classes of one name are equal', kind)
        mon.check(len(set(objs)) == len(objs) and len({o: 1 for o in objs}) == len(objs), 'a set of instances of classes of one name', kind)
        mon.state('namesakes', bytes(objs[0].hash))


def colliding(rng, mon, i):
    """Two contents whose commitments agree in some bytes are still different"""
    from proofmarshal.proof import Proof
    from proofmarshal.serialize import UInt64
    u = prooflab.rand_uuid(rng)
    cls = prooflab.make_class(rng, (Proof,), [('a', ('prim', UInt64, None))], 'HASHTAG', HashTag(u))
    tag = pm.tag(u)
    where = collide.parts(rng, rng.choice((1, 2, 3, 4, 4)))
    inner = rng.random() < 0.5              # agree in the data hash instead
    r = collide.search(rng, pm.varuint, pm.sha if inner else (lambda m: pm.sha(tag + pm.sha(m))), where)
    if r is None:
        return
    a, b = (cls(a=n) for n in r)
    h = [pm.sha(tag + pm.sha(pm.varuint(n))) for n in r]
    for x in (a, a.prune(), cls.deserialize(a.serialize()), cls.deserialize(a.prune().serialize())):
        for y in (b, b.prune(), cls.deserialize(b.serialize()), cls.deserialize(b.prune().serialize())):
            mon.same((bytes(x.hash), bytes(y.hash)), tuple(h), 'hashes')
            mon.check(x != y and not (x == y), 'different content, equal; hashes agree at %r' % (where,))
            mon.check(len({x, y, a, b}) == 2, 'set of two contents')
            mon.check({x: 1}.get(y) is None, 'found under another content')
    mon.state('partly equal', repr((where, h)))


def large(rng, mon, i):
    """Attributes of many kilobytes, and classes of hundreds of attributes"""
    from proofmarshal.proof import Proof
    from proofmarshal.serialize import FixedBytes, VarBytes, UInt64
    attrs = []
    if i % 2:
        for k in range(rng.choice((1, 2, 3))):
            n = rng.choice((1023, 1024, 1025, 4095, 4096, 4097, 8192, 10000, 16384, 32768, 65535, 65536, 65537, 100000))
            r = rng.randrange(3)
            attrs.append(('a%d' % k, ('prim', FixedBytes(n), ('fixed', n)) if r == 0 else ('prim', VarBytes(n), ('var', 0, n)) if r == 1 else
                          ('prim', prooflab.BitsSerializer, None)))
    else:
        for k in range(rng.choice((15, 16, 17, 31, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300))):
            attrs.append(('a%d' % k, ('prim', UInt64, ('uint', 64)) if rng.random() < 0.7 else ('prim', VarBytes(9), ('var', 0, 9))))
    def value(t):
        if t[2] is None:
            n = rng.choice((255, 256, 257, 1000, 2047, 2048, 2049, 4096))
            return tuple(rng.randrange(2) for _ in range(n))
        if t[2][0] == 'fixed':
            return rng.randbytes(t[2][1])
        if t[2] == ('uint', 64):
            return gen.int_in(rng, 0, 2**64 - 1)
        return rng.randbytes(t[2][2] - rng.choice((0, 0, 1, rng.randrange(t[2][2]))))
    u = prooflab.rand_uuid(rng)
    schema = prooflab.Schema(prooflab.make_class(rng, (Proof,), attrs, 'HASHTAG', HashTag(u)), pm.tag(u), attrs)
    node = prooflab.Node(schema, {n: value(t) for n, t in attrs})
    obj = mon.call('construct', node.build)
    h = node.hash
    mon.check(bytes(obj.hash) == h, 'hash of an instance with large attributes')
    ser = mon.call('serialize', obj.serialize)
    mon.check(ser == node.ser(), 'serialized form of an instance with large attributes')
    back = mon.call('deserialize', schema.cls.deserialize, ser)
    mon.check(bytes(back.hash) == h and back == obj and back.serialize() == ser, 'large instance read back')
    p = obj.prune()
    mon.check(bytes(p.hash) == h and p == obj, 'pruned large instance')
    # one byte, anywhere, changed
    vals = dict(node.vals)
    name, t = rng.choice(attrs)
    v = vals[name]
    if t[2] is None:
        k = rng.randrange(len(v))
        vals[name] = v[:k] + (1 - v[k],) + v[k + 1:]
    elif t[2] == ('uint', 64):
        vals[name] = v ^ (1 << rng.randrange(64))
    elif v:
        k = rng.randrange(len(v))
        vals[name] = v[:k] + bytes([v[k] ^ (1 << rng.randrange(8))]) + v[k + 1:]
    else:
        vals[name] = b'\x00'
    other = prooflab.Node(schema, vals)
    o2 = other.build()
    mon.check(bytes(o2.hash) == other.hash and o2 != obj and not (o2 == obj), 'large instance with one thing changed')
    mon.state('commitment', h)
    mon.state('commitment', other.hash)


def derived(rng, mon, i):
    """An attribute may hold an instance of a class derived from the declared one, which commits as what it is"""
    from proofmarshal.proof import Proof, ProofUnion, VarProof
    base = prooflab.make_attrs(rng, [], 0) or [('a', ('prim', prooflab.BitsSerializer, None))]
    u = prooflab.rand_uuid(rng)
    chain = [prooflab.Schema(prooflab.make_class(rng, (Proof,), base, 'HASHTAG', HashTag(u)), pm.tag(u), base)]
    for _ in range(rng.choice((1, 1, 2, 3))):
        p = chain[-1]
        have = {n for n, _ in p.attrs}
        extra = prooflab.make_attrs(rng, [], 0, [n for n in prooflab.NAMES if n not in have]) if rng.random() < 0.5 else []
        attrs = p.attrs + extra
        ds = {'SERIALIZED_ATTRS': [(n, t[1]) for n, t in attrs], '__slots__': [n for n, _ in extra], '__module__': 'lab'}
        if not extra and rng.random() < 0.5:
            del ds['SERIALIZED_ATTRS']
        tag = p.tag
        if rng.random() < 0.8:
            su = prooflab.rand_uuid(rng)
            ds['HASHTAG'], tag = HashTag(su), pm.tag(su)
        chain.append(prooflab.Schema(type('LabDerived', (p.cls,), ds), tag, attrs))
    top = chain[0]
    kind = rng.choice(('proof', 'proof', 'union', 'variant'))
    others = prooflab.make_attrs(rng, [], 0, ['x1', 'x2', 'x3'])
    t = ('union', [top], ProofUnion(top.cls)) if kind == 'union' else ('proof', top, top.cls)
    attrs = others + [('held', t)]
    rng.shuffle(attrs)
    u = prooflab.rand_uuid(rng)
    if kind == 'variant':
        v = prooflab.VarSchema(type('LabVar', (VarProof,), {'HASHTAG': HashTag(u), '__slots__': []}))
        su = prooflab.rand_uuid(rng)
        cls = v.cls.declare_variant(prooflab.make_class(rng, (v.cls,), attrs, 'SUB_HASHTAG', HashTag(su)))
        box = prooflab.Schema(cls, pm.derive(pm.tag(su), pm.tag(u)), attrs, v, 0)
    else:
        box = prooflab.Schema(prooflab.make_class(rng, (Proof,), attrs, 'HASHTAG', HashTag(u)), pm.tag(u), attrs)
    vals = {n: prooflab.prim_value(rng, tt) for n, tt in others}
    inner = {n: prooflab.prim_value(rng, tt) for n, tt in chain[-1].attrs}
    seen, helds = [], []
    for s in chain:
        held = prooflab.Node(s, {n: inner[n] for n, _ in s.attrs})
        node = prooflab.Node(box, dict(vals, held=held))
        obj = mon.call('construct with a derived value', node.build)
        pruned = obj.prune()
        order = [lambda: bytes(obj.hash), lambda: bytes(pruned.hash), lambda: bytes(pruned.held.hash), lambda: bytes(obj.held.hash)]
        want = [node.hash, node.hash, held.hash, held.hash]
        for k in rng.sample(range(4), 4):
            mon.same(order[k](), want[k], 'commitment around a value of a derived class')
        prooflab.walk_full(mon, obj, node, 'built')
        for h, o in seen:
            mon.check((h == node.hash) == (o == obj) and (h == node.hash) == (hash(o) == hash(obj)), 'equality of containers of different classes of values')
        for h, o in helds:
            for a, b in ((o, obj.held), (obj.held, o)):
                mon.check((h == held.hash) == (a == b) and (h == held.hash) != (a != b), 'equality of values of a class and one derived from it')
        if rng.random() < 0.3:
            # Same tag and attributes, but not derived from it
            twin = prooflab.Schema(prooflab.make_class(rng, (Proof,), s.attrs, 'HASHTAG', s.cls.HASHTAG), s.tag, s.attrs)
            other = prooflab.Node(twin, {n: inner[n] for n, _ in s.attrs}).build()
            mon.check(bytes(other.hash) == held.hash and other == obj.held and obj.held == other and not other != obj.held, 'equality of values of unrelated classes with the same tag')
        seen.append((node.hash, obj))
        helds.append((held.hash, obj.held))
        mon.state('derived', (kind, node.hash))


SUITES = [Suite('large attributes', large, 160, 800), Suite('namesakes', namesakes, 700, 4000), Suite('derived values', derived, 2100, 8000), Suite('colliding commitments', colliding, 280, 600), Suite('commitments', commit, 6300, 25000), Suite('tags', tags, 1400, 6000),
          Suite('separation', separation, 2100, 8000), Suite('construction', types, 4200, 15000), Suite('outsiders', outsiders, 700, 3000)]

"""Random proof classes, with an independent model of their instances.

A Schema describes one proof class; Node is the model of one instance and knows
its hashes and its serialized form (for any choice of what is visible) from the
specification alone; Node.real is the corresponding object of the real code.
"""
import uuid
from harness import gen
from harness.models import pm
from harness.props import c03
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.proof import Proof, VarProof, ProofUnion, PrunedError
from proofmarshal.serialize import FixedBytes, HashingSerializer, HashTag

_count = [0]


class Schema:
    def __init__(self, cls, tag, attrs, base=None, index=None):
        self.cls, self.tag, self.attrs, self.base, self.index = cls, tag, attrs, base, index


class VarSchema:
    def __init__(self, cls):
        self.cls, self.variants = cls, []


def rand_uuid(rng):
    return str(uuid.UUID(bytes=rng.randbytes(16)))


NAMES = ['a', 'b', 'left', 'right', 'value', 'key', 'prefix', 'seal', 'witness', 'n', 'length', 'i', 'txproof', 'contents', 'z9', 'name']


def hashed(n):
    """A serializer of plain values which have a hash of their own"""
    return type('Hashed%d' % n, (HashingSerializer, FixedBytes(n)), {'get_hash': classmethod(lambda cls, v: pm.sha(b'hashed' + v))}), ('fixed', n, 'hashed')


def make_attrs(rng, pool, depth, names=NAMES):
    """List of (name, type); type is ('prim', ser, t) | ('proof', schema, ser) | ('union', [schemas], ser)"""
    out = []
    n = rng.choice((0, 1, 1, 2, 2, 3, 4, 6))
    for name in rng.sample(names, min(n, len(names))):
        if pool and rng.random() < 0.55:
            s = rng.choice(pool)
            if rng.random() < 0.25:
                structs = [p for p in pool if isinstance(p, Schema)]
                members = []
                for p in rng.sample(structs, min(len(structs), rng.randint(1, 4))):
                    if not any(issubclass(p.cls, q.cls) or issubclass(q.cls, p.cls) for q in members):
                        members.append(p)
                if members:
                    out.append((name, ('union', members, ProofUnion(*[m.cls for m in members]))))
                    continue
            out.append((name, ('proof', s, s.cls)))
        elif rng.random() < 0.1:
            out.append((name, ('prim', BitsSerializer, None)))
        elif rng.random() < 0.06:
            out.append((name, ('prim',) + hashed(rng.choice((0, 1, 4, 32, 33)))))
        else:
            ser, t = c03.make_type(rng)
            while t[0] in ('fixed', 'var') and t[-1] > 200:
                ser, t = c03.make_type(rng)
            out.append((name, ('prim', ser, t)))
    return out


def make_class(rng, bases, attrs, tag_name, tag_value):
    _count[0] += 1
    d = {'SERIALIZED_ATTRS': [(n, t[1] if t[0] == 'prim' else t[2]) for n, t in attrs], tag_name: tag_value,
         '__module__': 'lab'}
    if rng.random() < 0.5:
        d['__slots__'] = [n for n, _ in attrs]
    elif rng.random() < 0.5:
        d['__slots__'] = []
        if attrs and rng.random() < 0.5:
            d['__slots__'] = [attrs[0][0]]
        del d['__slots__']
    if rng.random() < 0.3:
        d['SERIALIZED_ATTRS'] = tuple(d['SERIALIZED_ATTRS'])
    return type('Lab%d' % _count[0], bases, d)


def make_pool(rng, n=None):
    """A set of related classes; later ones may contain earlier ones"""
    pool = []
    for _ in range(n or rng.randint(2, 7)):
        r = rng.random()
        if r < 0.6 or not pool:
            u = rand_uuid(rng)
            attrs = make_attrs(rng, pool, 0)
            pool.append(Schema(make_class(rng, (Proof,), attrs, 'HASHTAG', HashTag(u)), pm.tag(u), attrs))
        elif r < 0.72:
            structs = [p for p in pool if isinstance(p, Schema) and p.base is None]
            if not structs:
                continue
            parent = rng.choice(structs)
            have = {n for n, _ in parent.attrs}
            extra = make_attrs(rng, pool, 0, [n for n in NAMES if n not in have])
            attrs = parent.attrs + extra
            u = rand_uuid(rng)
            cls = type('LabSub', (parent.cls,), {'SERIALIZED_ATTRS': [(n, t[1] if t[0] == 'prim' else t[2]) for n, t in attrs],
                                                 'HASHTAG': HashTag(u), '__slots__': [n for n, _ in extra], '__module__': 'lab'})
            pool.append(Schema(cls, pm.tag(u), attrs))
        else:
            u = rand_uuid(rng)
            base = VarSchema(type('LabVar', (VarProof,), {'HASHTAG': HashTag(u), '__slots__': [], '__module__': 'lab'}))
            kids = rng.randint(1, 4) if rng.random() < 0.85 else rng.choice((5, 6, 9, 17))
            inner = pool + [base]
            for k in range(kids):
                attrs = make_attrs(rng, inner if k else pool, 0)
                su = rand_uuid(rng)
                cls = make_class(rng, (base.cls,), attrs, 'SUB_HASHTAG', HashTag(su))
                cls = base.cls.declare_variant(cls)
                base.variants.append(Schema(cls, pm.derive(pm.tag(su), pm.tag(u)), attrs, base, k))
            pool.append(base)
    return pool


class Node:
    def __init__(self, schema, vals):
        self.schema, self.vals = schema, vals
        self._dh = None
        self.real = None

    def kids(self):
        return [(n, v) for n, v in self.vals.items() if isinstance(v, Node)]

    def count(self):
        return 1 + sum(v.count() for _, v in self.kids())

    @property
    def data_hash(self):
        if self._dh is None:
            out = b''
            for n, t in self.schema.attrs:
                v = self.vals[n]
                out += v.hash if isinstance(v, Node) else hash_prim(t, v)
            self._dh = pm.sha(out)
        return self._dh

    @property
    def hash(self):
        return pm.sha(self.schema.tag + self.data_hash)

    def variant(self):
        return pm.varuint(self.schema.index) if self.schema.base is not None else b''

    def ser(self, view='full'):
        """view: 'full', 'pruned' or {name: view} for proof attributes"""
        if view == 'pruned':
            return b'\xff' + self.variant() + self.data_hash
        out = b'\x00' + self.variant()
        for n, t in self.schema.attrs:
            v = self.vals[n]
            if isinstance(v, Node):
                if t[0] == 'union':
                    out += pm.varuint(t[1].index(v.schema))
                out += v.ser('full' if view == 'full' else view.get(n, 'pruned'))
            else:
                out += enc_prim(t, v)
        return out

    def build(self, kid=lambda node: node.build()):
        """A real instance, its children made by kid(node)"""
        kw = {}
        for n, t in self.schema.attrs:
            v = self.vals[n]
            kw[n] = kid(v) if isinstance(v, Node) else (Bits(v) if t[2] is None else v)
        if self.real is None:
            self.real = self.schema.cls(**kw)
            return self.real
        return self.schema.cls(**kw)


def enc_prim(t, v):
    return pm.enc_bits(v) if t[2] is None else c03.encode(t[2], v)


def hash_prim(t, v):
    return pm.sha(b'hashed' + v) if t[2] is not None and t[2][2:] == ('hashed',) else enc_prim(t, v)


def prim_value(rng, t):
    if t[2] is None:
        return tuple(rng.randrange(2) for _ in range(gen.size(rng, 70, 12)))
    return c03.good_value(rng, t[2])


def make_node(rng, schema, depth=0):
    if isinstance(schema, VarSchema):
        cands = schema.variants
        if depth > 2:
            # recursion ends at the variants that have no proofs inside
            flat = [s for s in cands if not any(t[0] != 'prim' for _, t in s.attrs)]
            cands = flat or cands[:1]
        schema = rng.choice(cands)
    vals = {}
    for n, t in schema.attrs:
        if t[0] == 'prim':
            vals[n] = prim_value(rng, t)
        elif t[0] == 'proof':
            vals[n] = make_node(rng, t[1], depth + 1)
        else:
            vals[n] = make_node(rng, rng.choice(t[1]), depth + 1)
    return Node(schema, vals)


def same_value(mon, got, t, want, what):
    if t[2] is None:
        mon.check(type(got) is Bits and tuple(got) == want, what, got, want)
    else:
        mon.same(got, want, what)


def walk_full(mon, obj, node, what, pruned=False):
    """Every attribute of an object equals the model; nothing is missing"""
    mon.same(bytes(obj.hash), node.hash, what + ': hash of ' + node.schema.cls.__name__)
    mon.same(bytes(obj.data_hash), node.data_hash, what + ': data hash')
    mon.check(isinstance(obj, node.schema.cls), what + ': class', type(obj))
    if not pruned:
        mon.same(obj.is_pruned, False, what + ': is_pruned')
        mon.same(obj.is_fully_pruned, False, what + ': is_fully_pruned')
    for n, t in node.schema.attrs:
        v = node.vals[n]
        got = mon.call('attribute ' + n, getattr, obj, n)
        if isinstance(v, Node):
            walk_full(mon, got, v, what + '.' + n, pruned)
        else:
            same_value(mon, got, t, v, what + '.' + n)


def walk_view(mon, obj, node, view, what):
    """Object read back from a pruned serialization: exactly the view is there"""
    mon.same(bytes(obj.hash), node.hash, what + ': hash of a pruned %s' % node.schema.cls.__name__)
    mon.same(bytes(obj.data_hash), node.data_hash, what + ': data hash')
    mon.check(isinstance(obj, node.schema.cls), what + ': class', type(obj))
    if view == 'pruned':
        mon.same(obj.is_pruned, True, what + ': is_pruned of a pruned instance')
        mon.same(obj.is_fully_pruned, True, what + ': is_fully_pruned of a pruned instance')
        for n, t in node.schema.attrs:
            e = mon.raises('%s.%s was pruned away; reading it' % (what, n), PrunedError, getattr, obj, n)
            mon.eq(e.attr_name, n, 'attribute named by the error')
            mon.check(e.instance is obj, 'instance named by the error')
        return
    mon.same(obj.is_fully_pruned, False, what + ': is_fully_pruned')
    mon.same(obj.is_pruned, view_pruned(node, view), what + ': is_pruned')
    for n, t in node.schema.attrs:
        v = node.vals[n]
        got = mon.call('visible attribute ' + n, getattr, obj, n)
        if isinstance(v, Node):
            walk_view(mon, got, v, 'full' if view == 'full' else view.get(n, 'pruned'), what + '.' + n)
        else:
            same_value(mon, got, t, v, what + '.' + n)


def view_pruned(node, view):
    if view == 'full':
        return False
    if view == 'pruned':
        return True
    return any(view_pruned(k, view.get(n, 'pruned')) for n, k in node.kids())


def random_view(rng, node, p=0.5):
    if rng.random() > p:
        return 'pruned' if rng.random() < 0.7 else 'full'
    return {n: random_view(rng, k, p) for n, k in node.kids()}


def find_paths(node, prefix=()):
    yield prefix, node
    for n, k in node.kids():
        yield from find_paths(k, prefix + (n,))

"""Merkle mountain range: behaves as an immutable list"""
from harness.worker import Suite
from harness.monitor import short
from harness import gen
from harness.models import trees

RULE = ('random histories of construction, append, extend, slicing, indexing, iteration over a pool of lists of every '
        'value type, each result compared with a Python tuple; all lengths up to 130 exhaustively in one suite. '
        'Non-trivial: distinct (operation, length, arguments) outcomes.')


def agree(mon, m, model, kind, what, full=True):
    n = len(model)
    mon.eq(mon.call('len', len, m), n, what + ': length')
    if full:
        got = mon.call('iterate', list, m)
        mon.eq(len(got), n, what + ': number of items iterated')
        for k in range(n):
            mon.check(kind.matches(got[k], model[k]), what + ': item %d of %d' % (k, n), got[k], model[k])
        mon.event('items', n)


def new(rng, mon, cls, kind, n=None):
    if n is None:
        n = gen.size(rng, 600, 40) if rng.random() < 0.9 else gen.size(rng, 2500, 300)
    few = [kind.make(rng) for _ in range(3)]
    model = tuple(rng.choice(few) if rng.random() < 0.3 else kind.make(rng) for _ in range(n))
    reals = [kind.real(v) for v in model]
    how = rng.randrange(5)
    if how == 4:
        other, _, _ = trees.make_mmr_class(rng, kind)
        m = mon.call('construct from a list of another class', cls, other(reals))
        mon.check(isinstance(m, cls), 'made from a list of another class, it is not of this class')
    elif how == 0:
        m = mon.call('construct', cls, reals)
    elif how == 1:
        m = mon.call('construct from iterator', cls, iter(reals))
    elif how == 2:
        k = rng.randint(0, n)
        m = mon.call('extend', lambda: cls(reals[:k]).extend(reals[k:]))
    else:
        m = cls()
        for v in reals:
            m = m.append(v)
    return m, model


def operate(rng, mon, pool, cls, kind):
    m, model = rng.choice(pool)
    n = len(model)
    op = rng.randrange(8)
    if op == 0:
        v = kind.make(rng)
        r, rm = mon.call('append', m.append, kind.real(v)), model + (v,)
        agree(mon, r, rm, kind, 'append to %d items' % n)
        pool.append((r, rm))
        mon.state('append', n)
    elif op == 1:
        vs = tuple(kind.make(rng) for _ in range(rng.choice((0, 1, 2, 5, rng.randint(0, 40)))))
        arg = [kind.real(v) for v in vs]
        r, rm = mon.call('extend', m.extend, iter(arg) if rng.random() < 0.5 else arg), model + vs
        agree(mon, r, rm, kind, 'extend %d items by %d' % (n, len(vs)))
        pool.append((r, rm))
        mon.state('extend', (n, len(vs)))
    elif op == 2:
        o, om = rng.choice(pool)
        if n + len(om) <= 3000:
            r, rm = mon.call('extend by a range', m.extend, o), model + om
            agree(mon, r, rm, kind, 'extend by a range')
            pool.append((r, rm))
    elif op in (3, 4):
        def idx():
            return rng.choice((None, 0, 1, -1, n, n - 1, n + 1, -n, -n - 1, rng.randint(-n - 3, n + 3), n // 2,
                               1 << rng.randint(0, 11), gen.int_in(rng, -2**70, 2**70)))
        s = slice(idx(), idx(), rng.choice((None, 1)))
        r, rm = mon.call('slice %r of %d' % (s, n), lambda: m[s]), model[s]
        agree(mon, r, rm, kind, 'slice %r of %d items' % (s, n))
        mon.check(isinstance(r, cls), 'slice is not a range')
        o = cls([kind.real(v) for v in rm])
        mon.check(r == o and o == r and hash(r) == hash(o), 'slice %r of %d is not equal to a list of its items' % (s, n))
        pool.append((r, rm))
        lo, hi, _ = s.indices(n)
        mon.state('slice', (n, lo, hi))
    elif op == 5:
        for k in {0, n - 1, -1, -n, n, -n - 1, n // 2, rng.randint(-n - 2, n + 2), gen.int_in(rng, -2**70, 2**70)}:
            if -n <= k < n:
                v = mon.call('[%d] of %d' % (k, n), lambda: m[k])
                mon.check(kind.matches(v, model[k]), 'item %d of %d' % (k, n), v, model[k])
                mon.state('index', (n, k))
            else:
                mon.raises('index %d of %d' % (k, n), IndexError, lambda: m[k])
    elif op == 6:
        got = mon.call('reversed', lambda: list(reversed(m)))
        mon.check(len(got) == n and all(kind.matches(g, v) for g, v in zip(got, reversed(model))), 'reversed', n)
        mon.same(mon.call('is_perfect_tree', m.is_perfect_tree), n > 0 and bin(n).count('1') == 1, 'is_perfect_tree of %d' % n)
        a, b = iter(m), iter(m)
        for k in range(min(n, 5)):
            mon.check(kind.matches(next(a), model[k]), 'interleaved iteration')
        mon.eq(len(list(b)), n, 'second iterator')
    else:
        for bad in ('0', 1.0, None, (0,)):
            mon.raises('index by %r' % (bad,), TypeError, lambda: m[bad])
        def seti(): m[0] = kind.real(kind.make(rng))
        def deli(): del m[0]
        # a step is not implemented: refused, or right
        step = slice(rng.choice((None, 0, rng.randint(-n - 1, n + 1))), rng.choice((None, n, rng.randint(-n - 1, n + 1))), rng.choice((2, 3, -1, -2, n + 1, 0)))
        try:
            want = model[step]
        except ValueError:
            mon.raises('slice %r' % (step,), (ValueError, NotImplementedError), lambda: m[step])
        else:
            st, r = mon.outcome('slice %r of %d' % (step, n), lambda: m[step], errors=NotImplementedError)
            if st == 'ok':
                agree(mon, r, want, kind, 'slice %r of %d items' % (step, n))
            mon.state('stepped slice', (n, step))
        for bad in (slice('a', None), slice(None, 1.0), slice(None, None, 'x')):
            mon.raises('slice %r' % (bad,), TypeError, lambda: m[bad])
        mon.raises('item assignment', TypeError, seti)
        mon.raises('item deletion', TypeError, deli)
        o, om = rng.choice(pool)
        mon.same(mon.call('==', lambda: m == o), model == om, 'equality', model, om)
    mon.event('operations')
    if len(pool) > 10:
        del pool[rng.randrange(len(pool))]


def history(rng, mon, i):
    cls, kind, _ = trees.make_mmr_class(rng)
    pool = [(cls(), ())] + [new(rng, mon, cls, kind) for _ in range(2)]
    for m, model in pool:
        agree(mon, m, model, kind, 'construction')
    for _ in range(14):
        operate(rng, mon, pool, cls, kind)
    for m, model in pool:
        agree(mon, m, model, kind, 'operand after the history')


def exhaustive(rng, mon, i):
    """All slices and indexes of the list of i items, and its growth by up to 9"""
    cls, kind, _ = trees.make_mmr_class(rng, trees.VUInt(trees.UInt64, 64))
    n = i
    model = tuple(range(1000, 1000 + n))
    m = cls(model)
    agree(mon, m, model, kind, 'construction')
    for k in range(-n - 1, n + 1):
        if -n <= k < n:
            mon.eq(m[k], model[k], 'item %d of %d' % (k, n))
        else:
            mon.raises('index %d of %d' % (k, n), IndexError, lambda: m[k])
    pts = range(0, n + 2) if n <= 40 else sorted(rng.sample(range(n + 1), 25)) + [n + 1]
    for a in pts:
        for b in pts:
            r = m[a:b]
            agree(mon, r, model[a:b], kind, 'slice %d:%d of %d' % (a, b, n), full=(n <= 24 or rng.random() < 0.3))
            if n <= 24 or rng.random() < 0.1:
                mon.check(r == cls(model[a:b]), 'slice %d:%d of %d is not equal to a list of its items' % (a, b, n))
            mon.state('slice', (n, a, b))
    r, rm = m, model
    for k in range(9):
        r, rm = r.append(k), rm + (k,)
        agree(mon, r, rm, kind, 'append to %d' % (n + k))
    agree(mon, m, model, kind, 'original')


def wrong_items(rng, mon, i):
    """Items of another type are refused, also those equal to an item that is there"""
    cls, kind, _ = trees.make_mmr_class(rng, trees.KINDS[i % len(trees.KINDS)]())
    m, model = new(rng, mon, cls, kind, rng.choice((0, 1, 1, 2, 3, 8)))
    for _ in range(6):
        v = rng.choice(model) if model and rng.random() < 0.6 else kind.make(rng)
        if type(v) is int and type(kind) is trees.VUInt and rng.random() < 0.6:
            v = rng.randrange(2)
        real = kind.real(v)
        good = mon.call('append', m.append, real)
        agree(mon, good, model + (v,), kind, 'append')
        for bad in trees.impostors(real):
            if type(kind) is trees.VBox and bad is real:
                continue
            what = 'item %r of type %s' % (bad, type(bad).__name__)
            how = rng.randrange(4)
            if how == 0:
                mon.raises(what + ' appended', (TypeError, ValueError), m.append, bad)
            elif how == 1:
                mon.raises(what + ' in an extension', (TypeError, ValueError), m.extend, [real, bad, real])
            elif how == 2:
                mon.raises(what + ' in a new list', (TypeError, ValueError), cls, [real, bad])
            else:
                mon.raises(what + ' appended', (TypeError, ValueError), good.append, bad)
            mon.state('wrong item', (type(kind).__name__, type(bad).__name__, short(v), how))
        agree(mon, m, model, kind, 'after refusals')
        m, model = mon.call('append', m.append, kind.real(v)), model + (v,)
        agree(mon, m, model, kind, 'append after refusals')


SUITES = [Suite('wrong items', wrong_items, 700, 4200), Suite('all lengths', exhaustive, 130, 520), Suite('histories', history, 3000, 20000)]

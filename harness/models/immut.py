"""Everything that could change an object in place, tried on it; the caller knows what it was and looks at it afterwards"""
import operator

INPLACE = [operator.iadd, operator.isub, operator.imul, operator.ior, operator.iand, operator.ixor, operator.ilshift,
           operator.irshift, operator.ifloordiv, operator.itruediv, operator.imod, operator.ipow, operator.imatmul, operator.iconcat]
# what lists, dictionaries, sets and byte arrays are changed with, and what objects are filled with
METHODS = {'append': 1, 'extend': 1, 'insert': 2, 'remove': 1, 'pop': 0, 'clear': 0, 'sort': 0, 'reverse': 0, 'put': 2, 'update': 1,
           'setdefault': 2, 'popitem': 0, 'add': 1, 'discard': 1, 'merge': 1, '__setitem__': 2, '__delitem__': 1, '__init__': 1,
           '__setstate__': 1, 'set': 2, 'rotate': 1, 'appendleft': 1, 'difference_update': 1, 'intersection_update': 1,
           '_append': 1, '_extend': 1, 'write': 1, 'seek': 1, 'truncate': 1}


def operators(rng, mon, obj, operands, what, n=6):
    """In-place operators: whatever comes out is another object (or the unchanged one), and an error is as good"""
    for _ in range(n):
        op, x = rng.choice(INPLACE), rng.choice(operands)
        try:
            op(obj, x)
            r = 'done'
        except Exception as e:
            r = type(e).__name__
        mon.event('in-place operator')
        mon.state('in-place', (what, op.__name__, type(x).__name__, r))


def methods(rng, mon, obj, operands, what, n=6, without=()):
    names = [m for m in METHODS if hasattr(type(obj), m) and m not in without]
    for _ in range(n if names else 0):
        m = rng.choice(names)
        k = METHODS[m]
        args = [rng.choice(operands) for _ in range(rng.choice((0, 1, k, k, k, k)))]
        try:
            getattr(obj, m)(*args)
            r = 'done'
        except Exception as e:
            r = type(e).__name__
        mon.event('method')
        mon.state('method', (what, m, r))
    for k in (0, 'x', slice(None), slice(0, 1)):
        for f in (lambda: operator.setitem(obj, k, rng.choice(operands)), lambda: operator.delitem(obj, k)):
            try:
                f()
            except Exception:
                continue
            mon.fail('an item of %s was set or deleted' % what, k)

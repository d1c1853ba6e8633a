"""Pairs of distinct inputs whose hashes agree in some bytes.

A comparison of two hashes that looks at only part of them is right on all data
met by accident; these pairs are found by birthday search, with the model's own
hash functions.
"""


def parts(rng, nbytes=4, width=32):
    """Positions (a tuple) whose bytes shall agree: an end of the hash, or somewhere inside"""
    r = rng.randrange(6)
    if r < 2:
        return tuple(range(nbytes))
    if r < 4:
        return tuple(range(width - nbytes, width))
    if r == 4:
        a = rng.randrange(width - nbytes)
        return tuple(range(a, a + nbytes))
    return tuple(sorted(rng.sample(range(width), nbytes)))


def search(rng, make, hash, where, limit=1 << 22):
    """Two integers n, m with hash(make(n)) and hash(make(m)) equal at the positions 'where' (and different elsewhere)"""
    seen = {}
    start = rng.randrange(1 << 31)
    cont = where == tuple(range(where[0], where[-1] + 1))
    lo, hi = where[0], where[-1] + 1
    for n in range(start, start + limit):
        h = hash(make(n))
        k = h[lo:hi] if cont else bytes([h[p] for p in where])
        m = seen.setdefault(k, n)
        if m != n:
            return m, n
    return None


def txs(rng, mtx, nbytes=4):
    """Two transactions that differ only in their lock time, with txids that agree in nbytes bytes"""
    from harness.models import btc
    base = mtx.copy()
    head = base.ser()[:-4]
    where = parts(rng, nbytes)
    r = search(rng, lambda n: head + n.to_bytes(4, 'little'), btc.dsha, where)
    if r is None:
        return None
    a, b = base.copy(), base.copy()
    a.locktime, b.locktime = r
    return a, b, where

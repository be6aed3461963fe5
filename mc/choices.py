"""The environment's randomness as an explored choice.

`explore(fn)` runs fn once for every possible answer of the random sampler it calls
(depth-first over the tree of answers; several calls in one run multiply).  Only
np.random.choice and Generator.choice are answered by the explorer, every other source of
randomness is seeded, so a run is always reproducible.
"""
import itertools
import random
from contextlib import contextmanager

import numpy as np

_REAL = np.random.choice
_REAL_RNG = np.random.default_rng


class TooMany(Exception):
    pass


class Chooser:
    def __init__(self, cap):
        self.cap = cap
        self.prefix = []
        self.trace = []  # (chosen, n_options)

    def pick(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n))
        return c

    def advance(self):
        t = self.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t = t[:-1]
        if not t:
            return False
        self.prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]
        self.trace = []
        return True

    def choice(self, a, size=None, replace=True, p=None, **kw):
        _REAL(a, size, replace, p)  # numpy's own validation of the request
        pop = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        live = [i for i in range(len(pop)) if p is None or p[i] > 0]
        n = 1 if size is None else int(np.prod(size))
        if replace and len(live) ** n <= self.cap:
            opts = len(live) ** n
            k = self.pick(opts)
            idx = []
            for _ in range(n):
                k, r = divmod(k, len(live))
                idx.append(live[r])
        else:
            combos = list(
                itertools.islice(
                    itertools.combinations_with_replacement(live, n)
                    if replace else itertools.combinations(live, n),
                    self.cap,
                )
            )
            idx = list(combos[self.pick(len(combos))])
        if size is None:
            return pop[idx[0]]
        return pop[np.array(idx, dtype=int)].reshape(size)


@contextmanager
def controlled(ch):
    class Rng:
        def __init__(self, *a):
            self._g = _REAL_RNG(1234)

        def choice(self, a, size=None, replace=True, p=None, **kw):
            return ch.choice(a, size, replace, p)

        def __getattr__(self, name):
            return getattr(self._g, name)

    np.random.seed(1234)
    random.seed(1234)
    np.random.choice = ch.choice
    np.random.default_rng = Rng
    try:
        yield
    finally:
        np.random.choice = _REAL
        np.random.default_rng = _REAL_RNG


def explore(fn, cap=5000, limit=20000):
    """Yields (answers, result) for every path; `cap` bounds the answers of one call."""
    ch = Chooser(cap)
    for _ in range(limit):
        with controlled(ch):
            r = fn()
        yield [c for c, _ in ch.trace], r
        if not ch.advance():
            return
    raise TooMany()

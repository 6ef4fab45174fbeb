"""Stateless exploration of a program's random choices.

`install` replaces the functions of the `random` module (before the package is
imported) by wrappers which hand every draw to the active controller and behave
as before when there is none.  `explore` then runs a closure once per sequence
of draws: depth-first, the first `depth` draws enumerated exhaustively, later
draws answered by a fixed, fair pseudo-random completion, so that a loop which
draws until it is content terminates on every path.
"""
import itertools
import math
import random as _r

_orig = {}
_ctl = [None]


class Controller(object):
    def __init__(self, prefix, depth, randvals=(0.0, 1.0 - 2.0 ** -53), k=None, maxdom=None):
        self.prefix = list(prefix)
        self.depth = depth
        self.points = []              # number of options at each enumerated draw
        self.choices = []
        self.randvals = randvals
        self.k = k                    # what shuffles are reduced to: the set of the first k
        self.maxdom = maxdom
        self.draws = 0

    def choose(self, n):
        """index in range(n), or None once the enumerated depth is exhausted"""
        self.draws += 1
        if n <= 1:
            return 0
        i = len(self.points)
        if i >= self.depth:
            return None
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise AssertionError("replay diverged: %d options, %d recorded" % (n, c))
        self.points.append(n)
        self.choices.append(c)
        return c


def _wrap(name):
    def deco(f):
        _orig[name] = getattr(_r, name)

        def g(*a, **kw):
            ctl = _ctl[0]
            if ctl is None:
                return _orig[name](*a, **kw)
            return f(ctl, *a, **kw)
        g.__name__ = name
        setattr(_r, name, g)
        return g
    return deco


_done = []


def install():
    if _done:
        return
    _done.append(1)

    @_wrap("random")
    def _random(ctl):
        c = ctl.choose(len(ctl.randvals))
        return _orig["random"]() if c is None else ctl.randvals[c]

    def _dom(ctl, values):
        n = len(values)
        if ctl.maxdom and n > ctl.maxdom:
            # both ends and an even spread of the domain
            step = (n - 1) / float(ctl.maxdom - 1)
            values = [values[int(round(i * step))] for i in range(ctl.maxdom)]
        c = ctl.choose(len(values))
        return None if c is None else values[c]

    @_wrap("randint")
    def _randint(ctl, a, b):
        v = _dom(ctl, range(a, b + 1))
        return _orig["randint"](a, b) if v is None else v

    @_wrap("randrange")
    def _randrange(ctl, *a):
        v = _dom(ctl, range(*a))
        return _orig["randrange"](*a) if v is None else v

    @_wrap("uniform")
    def _uniform(ctl, a, b):
        vals = sorted({a, (a + b) / 2.0, b})
        c = ctl.choose(len(vals))
        return _orig["uniform"](a, b) if c is None else vals[c]

    @_wrap("choice")
    def _choice(ctl, seq):
        v = _dom(ctl, range(len(seq)))
        return _orig["choice"](seq) if v is None else seq[v]

    @_wrap("shuffle")
    def _shuffle(ctl, x):
        n = len(x)
        if n < 2:
            return
        k = n if ctl.k is None else min(ctl.k, n)
        if k == n and ctl.k is None:
            # every permutation, drawn element by element
            for i in range(n - 1):
                c = ctl.choose(n - i)
                if c is None:
                    rest = x[i:]
                    _orig["shuffle"](rest)
                    x[i:] = rest
                    return
                x[i], x[i + c] = x[i + c], x[i]
            return
        c = ctl.choose(math.comb(n, k))
        if c is None:
            _orig["shuffle"](x)
            return
        first = unrank_comb(n, k, c)
        s = set(first)
        x[:] = [x[i] for i in first] + [x[i] for i in range(n) if i not in s]

    @_wrap("sample")
    def _sample(ctl, pop, k, **kw):
        pop = list(pop)
        c = ctl.choose(math.comb(len(pop), k))
        if c is None:
            return _orig["sample"](pop, k)
        return [pop[i] for i in unrank_comb(len(pop), k, c)]

    @_wrap("seed")
    def _seed(ctl, *a, **kw):
        return None


def unrank_comb(n, k, r):
    out = []
    i = 0
    while k > 0:
        c = math.comb(n - i - 1, k - 1)
        if r < c:
            out.append(i)
            k -= 1
        else:
            r -= c
        i += 1
    return out


def original(name):
    return _orig[name]


def explore(run, visit, depth, max_runs, **kw):
    """run() once per sequence of draws; visit(result, choices).

    Returns (runs, draws, complete): complete is False when max_runs was hit."""
    prefix = []
    runs = draws = 0
    while True:
        if runs >= max_runs:
            return runs, draws, False
        ctl = Controller(prefix, depth, **kw)
        _orig["seed"](20240601)
        _ctl[0] = ctl
        try:
            res = run()
        finally:
            _ctl[0] = None
        runs += 1
        draws += ctl.draws
        visit(res, list(ctl.choices))
        # next sequence in depth-first order
        ch, pts = ctl.choices, ctl.points
        i = len(ch) - 1
        while i >= 0 and ch[i] + 1 >= pts[i]:
            i -= 1
        if i < 0:
            return runs, draws, True
        prefix = ch[:i] + [ch[i] + 1]


def scripted(run, choices, depth=None, **kw):
    ctl = Controller(choices, len(choices) if depth is None else depth, **kw)
    _orig["seed"](20240601)
    _ctl[0] = ctl
    try:
        return run()
    finally:
        _ctl[0] = None

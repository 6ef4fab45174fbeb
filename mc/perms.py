"""Permutation groups, exactly."""
from itertools import permutations


def compose(p, q):
    """first q then p, as index lists: (p o q)[i] = q[p[i]] is the action on words"""
    return tuple(q[i] for i in p)


def closure(gens, n):
    ident = tuple(range(n))
    seen = {ident}
    frontier = [ident]
    while frontier:
        nf = []
        for x in frontier:
            for g in gens:
                y = compose(g, x)
                if y not in seen:
                    seen.add(y)
                    nf.append(y)
        frontier = nf
    return frozenset(seen)


def subgroups(n, cap=None):
    """Every subgroup of S_n, by closing under adjunction of elements (explicit search)."""
    elems = list(permutations(range(n)))
    start = closure([], n)
    seen = {start}
    frontier = [(start, [])]
    while frontier:
        nf = []
        for (g, gens) in frontier:
            tried = set()
            for e in elems:
                if e in g or e in tried:
                    continue
                h = closure(list(gens) + [e], n)
                tried |= h - g if len(h) < 0 else {e}
                if h not in seen:
                    seen.add(h)
                    nf.append((h, list(gens) + [e]))
                    if cap and len(seen) >= cap:
                        return seen
        frontier = nf
    return seen

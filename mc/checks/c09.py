"""C09: the numbering of arrangements is a bijection; exact combinatorics."""
import math
from itertools import product
from .. import geom
from ..common import require

BOUNDS = {"quick": "every composition of up to 9 sites in up to 5 species and of up to 14 sites in two (all numbers, all labelings), every "
                   "displacement word of up to 5 atoms, 2..6 directions; coefficients for all n up to 60",
          "thorough": "compositions up to 10 sites and 5 species; displacement words up to 7 atoms"}
ASSUMPTIONS = []
BATCH = 2


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(10, 15 if q else 17):
        for a in range(1, n):
            out.append({"kind": "hash", "c": [a, n - a]})
    for n in range(1, (10 if q else 11)):
        for k in range(1, 6):
            if k > n:
                continue
            for c in geom.compositions(n, k):
                if geom.multinomial(c) <= (8000 if q else 40000):
                    out.append({"kind": "hash", "c": c})
    out.sort(key=lambda c: -geom.multinomial(c["c"]))
    for d in range(1, 7):
        for k in range(1, (6 if q else 8)):
            if d ** k <= (8000 if q else 300000):
                out.append({"kind": "arrow", "d": d, "k": k})
    out += [{"kind": "num", "n": n} for n in range(0, 61)]
    return out


def explore(case, st):
    from phenum import numerics, tree
    from phenum.phonons import _ahash, _ainvhash
    if case["kind"] == "num":
        n = case["n"]
        require(numerics.factorial(n) == math.factorial(n), "factorial(%d) = %s" % (n, numerics.factorial(n)))
        for k in range(-2, n + 3):
            want = math.comb(n, k) if 0 <= k <= n else 0
            got = numerics.binomial_coefficient(n, k)
            require(got == want, "binomial(%d,%d) = %s, is %d" % (n, k, got, want))
            st.states += 1
        for k in range(1, 5):
            if n > (60, 40, 16, 10)[k - 1]:
                continue
            for c in geom.compositions(n, k):
                got = numerics.multinomial(list(c))
                require(got == geom.multinomial(c), "multinomial%s = %s, is %d" % (c, got, geom.multinomial(c)))
                st.states += 1
        for c in ([n, n, n], [n] * 5, [1] * max(n, 1), [n, 1, n]):
            require(numerics.multinomial(list(c)) == geom.multinomial(c), "multinomial%s wrong" % c)
        st.traces += 1
        st.outcome(n)
        return
    if case["kind"] == "arrow":
        d, k = case["d"], case["k"]
        seen = set()
        for i in range(d ** k):
            w = tuple(int(x) for x in _ainvhash(i, k, d))
            require(len(w) == k and all(0 <= x < d for x in w), "number %d of %d displacements in %d directions gives %s"
                    % (i, k, d, w))
            require(w not in seen, "displacements %s have two numbers" % (w,))
            seen.add(w)
            require(_ahash(list(w), d) == i, "displacements %s have number %s, not %d" % (w, _ahash(list(w), d), i))
            st.states += 1
        st.traces += d ** k
        st.outcome((d, k))
        return
    c = tuple(case["c"])
    n = sum(c)
    C = [int(x) for x in tree._coefficients(list(c), n)]
    tot = 1
    for x in C:
        tot *= x
    require(tot == geom.multinomial(c), "%s: %s numbers for %d arrangements" % (c, C, geom.multinomial(c)))
    seen = set()
    for b in product(*[range(x) for x in C]):
        w = tuple(int(x) for x in tree._invhash(list(b), list(c), n))
        require(sorted(w) == sorted(i + 1 for i in range(len(c)) for _ in range(c[i])),
                "number %s of composition %s gives %s" % (b, c, w))
        require(w not in seen, "two numbers of composition %s give %s" % (c, w))
        seen.add(w)
        rest = list(w)
        for lev in range(len(c)):
            digit = [1 if x == lev + 1 else 0 for x in rest]
            if c[lev]:
                h = int(tree._hash(list(digit)))
                require(h == b[lev], "species %d of %s has number %s, not %s" % (lev + 1, w, h, b[lev]))
            rest = [x for x in rest if x != lev + 1]
        st.states += 1
        st.transitions += len(c)
    require(len(seen) == tot, "oracle disagreement")
    st.traces += tot
    st.outcome(c)
    st.sample = "%d arrangements of %s" % (tot, c)

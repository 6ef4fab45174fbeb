"""C08: Smith normal form."""
from itertools import product
from .. import geom
from ..common import require

BOUNDS = {"quick": "every Hermite form of determinant up to 48; every 3x3 integer matrix with entries -1..1, and with "
                   "entries 0..2; every lower triangular matrix with diagonal up to 5 and entries -2..4",
          "thorough": "every Hermite form of determinant up to 80; every matrix with entries -2..2"}
ASSUMPTIONS = []
BATCH = 4


def cases(tier):
    q = tier == "quick"
    out = [{"kind": "hnf", "n": n} for n in range(1, (49 if q else 81))]
    out += [{"kind": "mat", "row": r, "vals": [-1, 0, 1]} for r in product((-1, 0, 1), repeat=3) if q]
    out += [{"kind": "tri", "diag": d} for d in product(range(1, 6), repeat=3)]
    if not q:
        out += [{"kind": "mat", "row": r, "vals": [-2, -1, 0, 1, 2]} for r in product(range(-2, 3), repeat=3)]
    if q:
        out += [{"kind": "mat", "row": r, "vals": [0, 1, 2]} for r in product((0, 1, 2), repeat=3)]
    return sorted(out, key=lambda c: -c.get("n", 0))


def mats(case):
    if case["kind"] == "hnf":
        for h in geom.all_hnfs(case["n"]):
            yield [list(r) for r in h]
    elif case["kind"] == "mat":
        for a in product(case["vals"], repeat=3):
            for b in product(case["vals"], repeat=3):
                yield [list(case["row"]), list(a), list(b)]
    else:
        a, c, f = case["diag"]
        for b, d, e in product(range(-2, 5), repeat=3):
            yield [[a, 0, 0], [b, c, 0], [d, e, f]]


def explore(case, st):
    from phenum.grouptheory import SmithNormalForm
    for H in mats(case):
        det = geom.det3(H)
        arg = [list(r) for r in H]
        if det < 1:
            try:
                SmithNormalForm(arg)
            except ValueError:
                st.traces += 1
                continue
            require(False, "a matrix of determinant %d is accepted: %s" % (det, H))
        S, L, R = SmithNormalForm(arg)
        st.traces += 1
        st.states += 1
        require([list(r) for r in arg] == H, "the argument was changed from %s to %s" % (H, arg))
        for m in (S, L, R):
            require(all(float(x) == int(x) for r in m for x in r), "%s: not an integer matrix: %s" % (H, m))
        S, L, R = [[[int(x) for x in r] for r in m] for m in (S, L, R)]
        require(geom.matmul(geom.matmul(L, H), R) == S, "%s: left*H*right is not the normal form (%s, %s, %s)"
                % (H, L, R, S))
        require(abs(geom.det3(L)) == 1 and abs(geom.det3(R)) == 1, "%s: a transform is not unimodular" % H)
        d = [S[i][i] for i in range(3)]
        require(all(S[i][j] == 0 for i in range(3) for j in range(3) if i != j), "%s: %s is not diagonal" % (H, S))
        require(min(d) > 0 and d[1] % d[0] == 0 and d[2] % d[1] == 0, "%s: diagonal %s" % (H, d))
        # the invariants are determined by the gcds of the minors
        from math import gcd
        g1 = 0
        for r in H:
            for x in r:
                g1 = gcd(g1, x)
        g2 = 0
        for r in geom.adj3(H):
            for x in r:
                g2 = gcd(g2, x)
        require(d == [g1, g2 // g1, det // g2], "%s: diagonal %s, should be %s" % (H, d, [g1, g2 // g1, det // g2]))
        st.outcome(tuple(d))
    st.sample = "%s" % case

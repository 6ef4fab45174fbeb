"""C16: basis reduction."""
from itertools import product
from .. import geom
from ..common import require
from ..enumcheck import spread

BOUNDS = {"quick": "every integer basis with entries -1..1; every lower triangular basis with diagonal up to 4 and other "
                   "entries -4..4; 56 parents described by 729 unimodular changes of basis (products of shears by -3, 0, 2); "
                   "every Hermite form of index up to 8 of 56 parents, up to 30 for the simple cubic one",
          "thorough": "entries -1..2; triangular diagonal up to 6, entries -6..6; shears by -7, -3, 0, 1, 4; Hermite forms of index up to 16, up to 60"}
ASSUMPTIONS = ["lengths agree within 1e-6 for non-integer lattices"]


def cases(tier):
    q = tier == "quick"
    out = [{"kind": "int", "row": r, "vals": [-1, 0, 1] if q else [-1, 0, 1, 2]}
           for r in product((-1, 0, 1) if q else (-1, 0, 1, 2), repeat=3) if any(r)]
    out += [{"kind": "tri", "diag": d, "m": 4 if q else 6} for d in product(range(1, 5 if q else 7), repeat=3)]
    for name in sorted(geom.ZOO):
        out.append({"kind": "lat", "lat": name, "top": 8 if q else 16, "max": 40})
        for u in product([-3, 0, 2] if q else [-7, -3, 0, 1, 4], repeat=2):
            out.append({"kind": "shear", "lat": name, "u": u, "vals": [-3, 0, 2] if q else [-7, -3, 0, 1, 4]})
    for n in range(9, 31 if q else 61):
        out.append({"kind": "lat", "lat": "sc", "top": n, "from": n, "max": 10 ** 6})
    return out


def bases(case):
    if case["kind"] == "int":
        for a in product(case["vals"], repeat=3):
            for b in product(case["vals"], repeat=3):
                yield [list(case["row"]), list(a), list(b)], True
    elif case["kind"] == "tri":
        a, c, f = case["diag"]
        m = case["m"]
        for b, d, e in product(range(-m, m + 1), repeat=3):
            yield [[a, 0, 0], [b, c, 0], [d, e, f]], True
    elif case["kind"] == "shear":
        A = geom.ZOO[case["lat"]].vecs
        a, b = case["u"]
        for c, d, e, f in product(case["vals"], repeat=4):
            U = geom.matmul([[1, 0, 0], [a, 1, 0], [b, c, 1]], [[1, d, e], [0, 1, f], [0, 0, 1]])
            yield geom.matmul(U, A), False
    else:
        lat = geom.ZOO[case["lat"]]
        for n in range(case.get("from", 1), case["top"] + 1):
            for H in spread(geom.all_hnfs(n), case["max"]):
                # the columns of H are the generators
                yield [[sum(H[k][i] * lat.vecs[k][j] for k in range(3)) for j in range(3)] for i in range(3)], False


def meets(B):
    """Whether the basis is ordered by length and no combination with coefficients -1, 0, 1 shortens a later vector."""
    a, b, c = B
    n = [sum(x * x for x in v) for v in B]
    if n[0] > n[1] or n[1] > n[2]:
        return False
    for s in (-1, 1):
        if sum((y + s * x) ** 2 for x, y in zip(a, b)) < n[1]:
            return False
    return all(sum((z + s * x + t * y) ** 2 for x, y, z in zip(a, b, c)) >= n[2]
               for s in (-1, 0, 1) for t in (-1, 0, 1))


def explore(case, st):
    from phenum import vector_utils
    from phenum.vector_utils import _minkowski_reduce_basis
    verdict = getattr(vector_utils, "_minkowski_conditions_check", None)
    for B, exact in bases(case):
        st.states += 1
        det = geom.det3(B)
        if case["kind"] in ("int", "tri") and verdict is not None:
            # each basis as it is, and in both orders of length
            for M in ([B] if case["kind"] == "int" else [B, [B[2], B[1], B[0]], [B[1], B[0], B[2]]]):
                st.traces += 1
                got = bool(verdict([[float(x) for x in r] for r in M], 1e-7))
                require(got == meets(M), "the Minkowski conditions of %s are said to %s" % (M, "hold" if got else "fail"))
        if exact and det == 0:
            continue
        for eps in (1e-7,):
            out = _minkowski_reduce_basis([[float(x) for x in r] for r in B], eps)
            judge(B, out, exact, st)


def judge(B, out, exact, st):
    R = [[float(x) for x in r] for r in out]
    st.traces += 1
    what = "reducing %s gave %s" % (B, R)
    inv = geom.inv3([[float(x) for x in r] for r in B])
    # rows of R in terms of rows of B
    T = geom.matmul(R, inv)
    Ti = [[int(round(x)) for x in r] for r in T]
    require(max(abs(T[i][j] - Ti[i][j]) for i in range(3) for j in range(3)) < 1e-6,
            "%s: not vectors of the lattice" % what)
    require(abs(geom.det3(Ti)) == 1, "%s: they span a different lattice" % what)
    V = [[sum(Ti[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    require(geom.det3(V) > 0, "%s: left-handed" % what)

    def n2(v):
        return sum(x * x for x in v)
    tol = 0 if exact else 1e-6
    V.sort(key=n2)
    a, b, c = V
    for s in (-1, 1):
        require(n2(b) <= n2([y + s * x for x, y in zip(a, b)]) + tol, "%s: not reduced (second vector)" % what)
    for s in (-1, 0, 1):
        for t in (-1, 0, 1):
            st.transitions += 1
            require(n2(c) <= n2([z + s * x + t * y for x, y, z in zip(a, b, c)]) + tol,
                    "%s: not reduced (third vector)" % what)
    st.outcome(tuple(round(n2(v), 4) for v in V))
    st.sample = what

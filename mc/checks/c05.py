"""C05: supercell shapes - every superlattice once, one representative per symmetry class."""
from .. import api, geom
from ..common import require

BOUNDS = {"quick": "complete lists for index 1..24; symmetry reduction for 56 parents up to index 6 "
                   "(8 for one-site parents of low symmetry)",
          "thorough": "complete lists for index 1..60; symmetry reduction for 56 parents up to index 10"}
ASSUMPTIONS = ["the parent lattices have no accidental near-symmetry at the package's tolerance"]


def cases(tier):
    out = [{"kind": "all", "n": n} for n in range(1, 25 if tier == "quick" else 61)]
    for name, lat in sorted(geom.ZOO.items()):
        top = 6 if tier == "quick" else 10
        if tier == "quick" and len(lat.space_group) <= 8 and len(lat.basis) == 1:
            top = 8
        for n in range(1, top + 1):
            out.append({"kind": "red", "lat": name, "n": n})
    out.sort(key=lambda c: -c["n"] * (c["kind"] == "red"))
    return out


def chk(H, n, what):
    require(H[0][1] == H[0][2] == H[1][2] == 0, "%s: %s is not lower triangular" % (what, H))
    (a, _, _), (b, c, _), (d, e, f) = H
    require(a > 0 and c > 0 and f > 0 and a * c * f == n and 0 <= b < c and 0 <= d < f and 0 <= e < f,
            "%s: %s is not a Hermite normal form of index %d" % (what, H, n))


def explore(case, st):
    from phenum.HNFs import find_all_HNFs, get_HNFs
    n = case["n"]
    if case["kind"] == "all":
        got = [tuple(tuple(int(x) for x in r) for r in h) for h in find_all_HNFs(n)]
        what = "all shapes of index %d" % n
        for h in got:
            chk(h, n, what)
        require(len(set(got)) == len(got), "%s: a shape is listed twice" % what)
        # brute force: walk the graph of sublattices of index n from the diagonal ones
        want = set(geom.all_hnfs(n))
        require(set(got) == want, "%s: %d listed, there are %d; missing %s" %
                (what, len(got), len(want), sorted(want - set(got))[:3]))
        sig = sum(d * sum(e for e in range(1, d + 1) if d % e == 0) for d in range(1, n + 1) if n % d == 0)
        require(len(want) == sig, "oracle disagreement")
        st.states += len(want)
        st.transitions += len(want)
        st.traces += 1
        st.outcome(len(want))
        st.sample = "%d superlattices of index %d" % (len(want), n)
        return
    lat = geom.ZOO[case["lat"]]
    p = api.params(lat)
    got = [tuple(tuple(int(x) for x in r) for r in h) for h in get_HNFs(n, p["lat_vecs"], p["basis_vecs"], 3)]
    what = "%s, shapes of index %d" % (lat.name, n)
    rots = {op[0] for op in lat.space_group}
    comp = {}
    size = []
    for H in geom.all_hnfs(n):
        if H in comp:
            continue
        # explore the orbit of this superlattice under the parent's operations
        stack = [H]
        comp[H] = len(size)
        k = 1
        while stack:
            x = stack.pop()
            for M in rots:
                y = geom.col_hnf(geom.matmul([list(r) for r in M], [list(r) for r in x]))
                st.transitions += 1
                if y not in comp:
                    comp[y] = len(size)
                    stack.append(y)
                    k += 1
        size.append(k)
    st.states += len(comp)
    st.traces += 1
    seen = {}
    for h in got:
        chk(h, n, what)
        o = comp[h]
        require(o not in seen, "%s: %s and %s are equivalent superlattices" % (what, seen.get(o), h))
        seen[o] = h
    require(len(seen) == len(size), "%s: %d classes listed, there are %d; missing %s" %
            (what, len(seen), len(size), [h for h in comp if comp[h] not in seen][:2]))
    st.outcome(tuple(sorted(size)))
    # the degeneracy of a shape is the number of superlattices in its class
    from phenum.HNFs import remove_duplicate_lattices
    from phenum.grouptheory import _get_dvector_permutations
    p = api.params(lat)
    bv = [[float(x) for x in b] for b in reduced(lat)]
    perms = _get_dvector_permutations(p["lat_vecs"], bv, 3, 1e-7, inverse=False) if "inverse" in \
        _get_dvector_permutations.__code__.co_varnames else _get_dvector_permutations(p["lat_vecs"], bv, 3, 1e-7)
    (u, fix, rp, deg) = remove_duplicate_lattices(find_all_HNFs(n), p["lat_vecs"], bv, perms, eps_=1e-7)
    st.traces += 1
    for h, f, d in zip(u, fix, deg):
        h = tuple(tuple(int(x) for x in r) for r in h)
        require(int(d) == size[comp[h]], "%s: degeneracy of %s is %s, its class has %d members" %
                (what, h, d, size[comp[h]]))
        nops = len(lat.space_group)
        require(len(f.rot) * int(d) == nops, "%s: %d operations fix %s, degeneracy %s, the parent has %d operations"
                % (what, len(f.rot), h, d, nops))
    st.sample = "%s: %d superlattices of index %d in %d classes" % (lat.name, len(comp), n, len(size))


def reduced(lat):
    """the basis inside the unit cell, cartesian"""
    out = []
    for b in lat.basis:
        r = geom.mod1(b)
        out.append([sum(float(r[k]) * lat.vecs[k][j] for k in range(3)) for j in range(3)])
    return out

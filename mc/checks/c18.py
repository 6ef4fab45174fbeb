"""C18: lattice parameters."""
import json
import os
from itertools import permutations, product
from .. import geom
from ..common import require

BOUNDS = {"quick": "every tabulated element alone on 56 parents; every pair of elements with concentrations 0..6 on four parents; "
                   "every triple of 24 elements and every quadruple of 10 with concentrations 0..2 in every order (also the same element twice); zeros kept and removed",
          "thorough": "every pair with concentrations 0..9 on seven parents; every triple of all elements, every quadruple of 16"}
ASSUMPTIONS = ["atomic volumes are those of the committed copy of the table (mc/volumes.json)"]
VOL = {k: float(v) for k, v in json.load(open(os.path.join(os.path.dirname(__file__), "..", "volumes.json"))).items()}
TITLE = "Random structure enumeration: 2020-01-01 str #: 7\n"


def cases(tier):
    q = tier == "quick"
    els = sorted(VOL)
    out = [{"kind": "one", "lat": n} for n in sorted(geom.ZOO)]
    for i in range(len(els)):
        for lat in ("fcc", "hcp", "tri", "perov3") + (() if q else ("mono", "diamond", "sc_h2")):
            out.append({"kind": "n", "first": els[i], "els": els, "k": 2, "max": 6 if q else 9, "lat": lat})
    few = ["Al", "Pb", "Pd", "Ni", "Cu", "H", "Xe", "W", "Mg", "O", "Cs", "C"]
    more = few + ["Ti", "Zr", "Be", "Si", "Fe", "Co", "Au", "Ag", "Pt", "Zn", "S", "I"]
    for e in (more if q else els):
        out.append({"kind": "n", "first": e, "els": more if q else els, "k": 3, "max": 2, "lat": "hcp"})
    four = few[:10] if q else more[:16]
    for e in four:
        out.append({"kind": "n", "first": e, "els": four, "k": 4, "max": 2, "lat": "tri"})
    return out


def param(lat, e):
    v = abs(geom.det3(lat.vecs)) / len(lat.basis)
    return (VOL[e] / v) ** (1 / 3.)


def explore(case, st):
    from phenum.element_data import get_lattice_parameter, get_lat_param_element
    lat = geom.ZOO[case["lat"]]
    nb = len(lat.basis)
    if case["kind"] == "one":
        for e in sorted(VOL):
            p = float(get_lat_param_element([list(v) for v in lat.vecs], nb, e))
            st.traces += 1
            st.states += 1
            st.transitions += 1
            w = param(lat, e)
            require(abs(p - w) < 1e-7 * w, "%s on %s: lattice parameter %s, not %s" % (e, lat.name, p, w))
            for c in (1, 2, 7):
                many(get_lattice_parameter, lat, nb, [e], [c], st)
        for els, cs in ((["Al"], [1, 1]), (["Al", "Ni"], [4]), (["Al", "Ni", "Cu"], [1, 2]), ([], [1])):
            try:
                r = get_lattice_parameter(els, cs, [list(v) for v in lat.vecs], nb, TITLE)
            except ValueError:
                continue
            require(False, "%d names for %d species accepted: %s" % (len(els), len(cs), r))
        p, t = get_lattice_parameter(None, [1, 2], [list(v) for v in lat.vecs], nb, TITLE)
        require(float(p) == 1.0 and t.split() == TITLE.split(), "no elements: %s %r" % (p, t))
        return
    k = case["k"]
    for rest in product(case["els"], repeat=k - 1):
        names = (case["first"],) + rest
        if len(set(names)) < k and k == 4:
            continue
        for c in product(range(case["max"] + 1), repeat=k):
            if sum(c) == 0:
                continue
            many(get_lattice_parameter, lat, nb, list(names), list(c), st)
            st.states += 1
            if len(st.outcomes) < 500:
                st.outcome((names, c))
    st.sample = "last: %s %s" % (names, c)


def many(f, lat, nb, names, c, st):
    want = sum(x * param(lat, e) for x, e in zip(c, names)) / sum(c)
    for rz in (False, True):
        a, b = list(names), list(c)
        vec = [list(v) for v in lat.vecs]
        p, t = f(a, b, vec, nb, TITLE, remove_zeros=rz)
        st.traces += 1
        st.transitions += 1
        require(abs(float(p) - want) < 1e-7 * want, "%s %s on %s: lattice parameter %s, not %s" % (names, c, lat.name, p, want))
        tt = [e for x, e in zip(c, names) if x or not rz]
        require(t.split() == tt + TITLE.split() and t.endswith("\n") and "\n" not in t[:-1],
                "%s %s, zeros %s: title %r" % (names, c, "removed" if rz else "kept", t))
        require(a == names and b == c and vec == [list(v) for v in lat.vecs], "the arguments were changed")

"""C26: the pictures of the supercells show every atom and the whole cell."""
import os
import shutil
import tempfile
from itertools import product
from .. import api, geom
from ..common import require
from ..enumcheck import spread
from .c15 import EXTRA, lattcoords

BOUNDS = {"quick": "56 parents (1-4 basis sites) and five left-handed, rescaled and shifted descriptions, every Hermite form of index up to 4 and a spread of index 5-8, lists of up to "
                   "12 supercells in both orders, both kinds of picture, drawn only and saved",
          "thorough": "every Hermite form of index up to 8 of every parent"}
ASSUMPTIONS = ["the pictures are observed as the points and lines handed to matplotlib's 3d axes (Axes3D.scatter, Axes3D.plot) and the file names handed to Figure.savefig",
               "positions agree within 1e-6"]
TOL = 1e-6


def cases(tier):
    q = tier == "quick"
    out = []
    for name in sorted(geom.ZOO) + sorted(EXTRA):
        hs = [H for n in range(1, 5 if q else 9) for H in geom.all_hnfs(n)]
        if q:
            hs = spread(hs, 18) + [H for n in (5, 6, 7, 8) for H in spread(list(geom.all_hnfs(n)), 1)]
        for i in range(0, len(hs), 12):
            for shapes in (False, True):
                out.append({"lat": name, "Hs": hs[i:i + 12], "shapes": shapes, "back": (i // 12 + shapes) % 2 == 1,
                            "test": (i // 12) % 2 == 0, "command": i % 24 == 0})
    return out


class Recorder(object):
    """Stands in for drawing: every figure is the list of what was drawn in it."""

    def __init__(self):
        from phenum import base
        base.set_testmode(True)
        import phenum.visualize  # noqa: it selects the backend
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        from mpl_toolkits.mplot3d import Axes3D
        self.plt, self.A, self.F = plt, Axes3D, Figure
        self.figs = []
        self.old = (Axes3D.scatter, Axes3D.plot, Figure.savefig)
        self.index = {}

        def fig(ax):
            f = ax.figure
            if id(f) not in self.index:
                self.index[id(f)] = len(self.figs)
                self.figs.append({"keep": f, "points": [], "lines": [], "saved": []})
            return self.figs[self.index[id(f)]]

        def scatter(ax, xs, ys, zs=0, *a, **k):
            fig(ax)["points"] += [tuple(map(float, p)) for p in zip(xs, ys, zs)]

        def plot(ax, xs, ys, zs=None, *a, **k):
            p = [tuple(map(float, q)) for q in zip(xs, ys, zs if zs is not None else k.get("zs"))]
            fig(ax)["lines"] += list(zip(p, p[1:]))

        def savefig(f, name, *a, **k):
            require(id(f) in self.index, "an empty picture is saved as %s" % name)
            self.figs[self.index[id(f)]]["saved"].append(str(name))

        Axes3D.scatter, Axes3D.plot, Figure.savefig = scatter, plot, savefig
        Axes3D.scatter3D, Axes3D.plot3D = scatter, plot

    def close(self):
        self.A.scatter, self.A.plot, self.F.savefig = self.old
        self.A.scatter3D, self.A.plot3D = self.old[:2]
        self.plt.close("all")


def explore(case, st):
    lat = EXTRA.get(case["lat"]) or geom.ZOO[case["lat"]]
    Hs = [tuple(map(tuple, H)) for H in case["Hs"]]
    if case["back"]:
        Hs = Hs[::-1]
    d = tempfile.mkdtemp()
    old = os.getcwd()
    os.chdir(d)
    rec = None
    try:
        nb = len(lat.basis)
        with open("lattice.in", "w") as f:
            f.write("# parent\n1 8\nbulk\n")
            for i in range(3):
                f.write(" ".join(repr(float(lat.vecs[j][i])) for j in range(3)) + "\n")
            f.write("2\n%d\n" % nb)
            for b in lat.cart_basis:
                f.write(" ".join(repr(float(x)) for x in b) + "\n")
            f.write("F\n")
        with open("cells.in", "w") as f:
            f.write("# HNF concentrations number\n")
            for i, H in enumerate(Hs):
                n = H[0][0] * H[1][1] * H[2][2] * nb
                f.write(" %s  %d %d  %d\n" % (" ".join(map(str, api.six(H))), n - i % (n + 1), i % (n + 1), i + 1))
        rec = Recorder()
        if case["command"]:
            from phenum.enumeration import _script_enum
            _script_enum({"profile": None, "savedist": False, "verbose": None, "outfile": None, "enum": False, "lattice": "lattice.in",
                          "acceptrate": None, "examples": False, "sizes": None, "debug": False, "input": "cells.in", "polya": False,
                          "super": False, "distribution": None, "seed": None, "filter": None, "visualize": True,
                          "shapes": case["shapes"], "show": False}, testmode=case["test"])
        else:
            from phenum import visualize
            (visualize.HNF_shapes if case["shapes"] else visualize.HNF_atoms)("cells.in", "lattice.in", False, testmode=case["test"])
        figs = rec.figs
    finally:
        if rec:
            rec.close()
        os.chdir(old)
        shutil.rmtree(d)
    what = "%s, %s" % (lat.name, "shapes" if case["shapes"] else "atoms")
    require(len(figs) == len(Hs), "%s: %d pictures for %d supercells" % (what, len(figs), len(Hs)))
    for H, f in zip(Hs, figs):
        w = "%s H=%s" % (what, api.six(H))
        atoms(lat, H, f["points"], w, st)
        if case["shapes"]:
            edges(lat, H, f["lines"], w, st)
        want = [] if case["test"] else ["".join(map(str, api.six(H))) + ".pdf"]
        require([os.path.basename(x) for x in f["saved"]] == want, "%s: saved as %s, not %s" % (w, f["saved"], want))
        st.traces += 1
        st.outcome((lat.name, api.six(H), case["shapes"]))
    st.sample = {"parent": lat.name, "supercells": [list(api.six(H)) for H in Hs][:3], "points of the first": len(figs[0]["points"])}


def atoms(lat, H, points, w, st):
    diag, L = api.snf(H)
    cell = geom.Cell(lat, H, L, diag)
    nb = len(lat.basis)
    want = cell.n * nb
    require(len(points) == want, "%s: %d atoms drawn, the supercell has %d" % (w, len(points), want))
    seen = set()
    for p in points:
        c = lattcoords(lat, p)
        for b in range(nb):
            z = [c[j] - float(lat.basis[b][j]) for j in range(3)]
            r = [int(round(x)) for x in z]
            if max(abs(x - y) for x, y in zip(z, r)) < TOL:
                k = (b, cell.zindex(r))
                require(k not in seen, "%s: an atom is drawn twice (%s)" % (w, p))
                seen.add(k)
                break
        else:
            require(False, "%s: %s is no site of the crystal" % (w, p))
        st.states += 1
        st.transitions += 1


def edges(lat, H, lines, w, st):
    segs = set()
    for p, q in lines:
        c = [lattcoords(lat, x) for x in (p, q)]
        r = [tuple(int(round(x)) for x in y) for y in c]
        require(all(abs(x - y) < TOL for a, b in zip(c, r) for x, y in zip(a, b)), "%s: the edge %s-%s does not join lattice points" % (w, p, q))
        segs.add(frozenset(r))
        st.transitions += 1
    o = (0, 0, 0)
    vecs = sorted(next(iter(s - {o})) for s in segs if o in s and len(s) == 2)
    require(len(vecs) == 3, "%s: %d edges start at the origin" % (w, len(vecs)))
    require(geom.col_hnf(geom.transpose([list(v) for v in vecs])) == geom.col_hnf(H), "%s: the edges %s do not span the supercell" % (w, vecs))
    want = set()
    for k in product((0, 1), repeat=3):
        for i in range(3):
            if k[i] == 0:
                a = tuple(sum(k[m] * vecs[m][j] for m in range(3)) for j in range(3))
                want.add(frozenset((a, tuple(x + y for x, y in zip(a, vecs[i])))))
    require(segs == want, "%s: %d of the twelve edges drawn, %d other lines" % (w, len(segs & want), len(segs - want)))

"""C11: the distribution hands out exactly what was asked for, never more than exists."""
import contextlib
import io
import math
import os
import re
from itertools import product
from .. import choice
from ..common import require

BOUNDS = {"quick": "tables of 2 sizes, up to 3 shapes and 3 concentrations with counts 0..5 (every 2x2 table over "
                   "{0,1,3}); every request from 1 to one more than available; over shape, concentration, size and all; unfiltered "
                   "and every shape/concentration filter; every outcome of the first 7 random draws",
          "thorough": "the first 10 random draws, more tables"}
ASSUMPTIONS = []
SHAPES = {1: [(1, 0, 1, 0, 0, 1)], 2: [(1, 0, 1, 0, 0, 2), (1, 0, 1, 0, 1, 2), (1, 0, 2, 0, 0, 1)],
          3: [(1, 0, 1, 0, 0, 3), (1, 0, 1, 0, 1, 3), (1, 0, 3, 0, 0, 1)],
          10: [(1, 0, 1, 0, 0, 10), (1, 1, 2, 3, 4, 5), (1, 0, 10, 0, 0, 1)],
          12: [(1, 0, 1, 11, 10, 12), (2, 1, 2, 1, 2, 3), (1, 0, 12, 0, 0, 1)],
          21: [(1, 0, 1, 20, 10, 21), (1, 0, 3, 2, 5, 7)]}


def cases(tier):
    out = []
    depth = 7 if tier == "quick" else 10
    # one size, every 2x2 table
    for t in product((0, 1, 3), repeat=4):
        if sum(t):
            out.append({"t": {"2": [list(t[:2]), list(t[2:])]}, "depth": depth})
    for t in ([[2, 5, 1], [0, 1, 4]], [[1], [7]], [[4, 4, 4]], [[1, 1, 1], [1, 1, 1], [1, 1, 1]],
              [[9, 1], [1, 0], [3, 3]], [[0, 0], [2, 5]], [[30, 1, 1], [1, 1, 1]]):
        out.append({"t": {"3": t}, "depth": depth})
    two = [({"1": [[1, 1]], "2": [[1, 2], [0, 3]]}), ({"1": [[0, 1]], "2": [[1, 0], [2, 2], [1, 1]]}),
           ({"1": [[1, 1]], "2": [[1, 1, 1], [2, 0, 2]], "3": [[1, 3], [2, 2], [0, 4]]}),
           ({"2": [[0, 5]], "3": [[5, 0]]}), ({"1": [[2]], "2": [[3]], "3": [[1]]}),
           ({"2": [[7, 3], [1, 1]], "3": [[2, 9], [1, 0]]})]
    two += [({"2": [[1, 2]], "12": [[3, 1], [1, 0]]}), ({"12": [[2, 3]]}), ({"1": [[2, 1]], "10": [[0, 3], [1, 1]]}),
            ({"2": [[1, 1]], "12": [[1, 2]], "21": [[2, 2], [1, 0]]})]
    for t in two:
        out.append({"t": t, "depth": depth})
    for t in two + [{"3": [[2, 5, 1], [0, 1, 4]]}]:
        out.append({"t": t, "depth": depth - 1, "ternary": 1})
    for t in product((0, 1, 3) if tier == "quick" else (0, 1, 2, 6), repeat=4):
        out.append({"t": {"1": [[1, 2]], "2": [list(t[:2]), list(t[2:])]}, "depth": depth - 1})
    return out


def concs_of(size, k, ternary=False):
    if ternary:
        return [(i, 1, size - 1 - i) for i in range(k)] if size > 2 else [(i, 0, size - i) for i in range(k)]
    return [(i, size - i) if size > 1 or k <= 2 else (i, 1) for i in range(k)]


def write(size, rows, concs):
    shapes = SHAPES[size][:len(rows)]
    with open("polya.out.%d" % size, "w") as f:
        f.write('{0: <28}'.format("# HNF"))
        for c in concs:
            f.write("{0: <50}".format(':'.join(map(str, c))))
        f.write('{0: <50}\n'.format("Total"))
        for s, r in zip(shapes, rows):
            f.write("  {0: <26}".format(' '.join(map(str, s))))
            for v in r:
                f.write("{0: <50d}".format(v))
            f.write("{0: <10d}\n".format(sum(r)))
        f.write("# ------\n")
        f.write("{0: <28}".format("  0 0 0 0 0 0"))
        for j in range(len(concs)):
            f.write("{0: <50d}".format(sum(r[j] for r in rows)))
        f.write("{0: <50d}\n".format(sum(map(sum, rows))))
    return {(size, s, c): v for s, r in zip(shapes, rows) for c, v in zip(concs, r)}


KEY = {"all": lambda k: k, "shape": lambda k: (k[1],), "conc": lambda k: (k[0], k[2]), "size": lambda k: (k[0],)}


def size_of(k):
    return k[0][0] * k[0][2] * k[0][5] if isinstance(k[0], tuple) else k[0]


def parse(path, ftype, nsp=2):
    out = {}
    for line in open(path):
        if line.strip() == "" or line.lstrip().startswith("#"):
            continue
        v = [int(x) for x in line.split()]
        if ftype == "all":
            h, c, num = tuple(v[:6]), tuple(v[6:-1]), v[-1]
            key = (h[0] * h[2] * h[5], h, c)
        elif ftype == "shape":
            key, num = (tuple(v[:6]),), v[-1]
            require(len(v) == 7, "malformed line %r" % line)
        elif ftype == "conc":
            key, num = (v[0], tuple(v[1:-1])), v[-1]
        else:
            key, num = (v[0],), v[-1]
            require(len(v) == 2, "malformed line %r" % line)
        require(key not in out, "%s is listed twice" % (key,))
        out[key] = num
    return out


def parse_shown(text, ftype):
    """The table as it is printed for the user."""
    out = {}
    for line in re.sub("\x1b\\[[0-9;]*m", "", text).splitlines():
        part = [x.strip() for x in line.split("|")][:4]
        if len(part) != 4:
            require(line.strip() == "", "printed line %r" % line)
            continue
        size, hnf, conc, num = int(part[0]), tuple(map(int, part[1].split())), tuple(map(int, part[2].split(":"))) \
            if part[2] else (), int(part[3])
        key = {"shape": (hnf,), "conc": (size, conc), "size": (size,)}[ftype]
        require(key not in out, "%s is printed twice" % (key,))
        out[key] = num
    return out


def explore(case, st):
    from phenum.structures import make_enum_in
    for f in os.listdir("."):
        os.remove(f)
    table = {}
    for s, rows in sorted(case["t"].items()):
        concs = concs_of(int(s), len(rows[0]), case.get("ternary"))
        table.update(write(int(s), rows, concs))
    sizes = sorted(int(s) for s in case["t"])
    shapes = sorted({k[1] for k in table})
    concs = sorted({k[2] for k in table})
    filters = [None] + [("shape", [x]) for x in shapes[:3]] + [("conc", [x]) for x in concs[:3]]
    if len(shapes) > 2:
        filters.append(("shape", shapes[::2]))
    if len(concs) > 2:
        filters.append(("conc", concs[1:]))
    for flt in filters:
        restrict = None
        sub = dict(table)
        if flt:
            with open("flt", "w") as f:
                f.write("# filter\n")
                for x in flt[1]:
                    if flt[0] == "shape":
                        f.write("  %s   3\n" % " ".join(map(str, x)))
                    else:
                        f.write("  %d   %s   %s\n" % (sum(x), " ".join(map(str, x)), "3" if len(flt[1]) > 1 else ""))
            restrict = [flt[0], "flt"]
            sub = {k: v for k, v in table.items() if k[1 if flt[0] == "shape" else 2] in flt[1]}
        for ftype in ("all", "shape", "conc", "size"):
            avail = {}
            for k, v in sub.items():
                kk = KEY[ftype](k)
                avail[kk] = avail.get(kk, 0) + v
            total = sum(avail.values())
            if total == 0:
                continue
            requests = list(range(1, total + 2)) if total <= 14 else [1, 2, total // 2, total - 1, total, total + 5]
            uses = [None]
            if flt is None:
                uses += [sizes] + [[x] for x in sizes if len(sizes) > 1]
            everything = avail
            for use in uses:
                avail = {k: v for k, v in everything.items() if use is None or size_of(k) in use}
                total = sum(avail.values())
                if total == 0:
                    continue
                reqs = [r for r in requests if r < total] + [total, total + 1]
                for n in reqs + [None]:
                    save = n != 1

                    def run():
                        if os.path.exists("res"):
                            os.remove("res")
                        screen = io.StringIO()
                        with contextlib.redirect_stdout(screen):
                            make_enum_in("polya.out", ftype, "res", number=n, sizes=use, save=save or ftype == "all",
                                         seed=3, restrict=restrict)
                        if ftype == "all":
                            return parse("res", ftype)
                        shown = parse_shown(screen.getvalue(), ftype)
                        if not save:
                            require(not os.path.exists("res"), "distribution over %s: a file is written though the "
                                    "table was only to be shown" % ftype)
                        else:
                            saved = parse("res", ftype)
                            require(saved == shown, "distribution over %s: the saved table %s is not the one shown, %s"
                                    % (ftype, sorted(saved.items()), sorted(shown.items())))
                        return shown

                    fair = []

                    def visit(res, ch):
                        st.traces += 1
                        if n is not None and n < total and not fair and all(
                                res.get(k, 0) >= math.floor(float(n) * v / total - 1e-9) for k, v in avail.items()):
                            fair.append(ch)
                        st.outcome((ftype, tuple(sorted(res.items()))))
                        what = "table %s, request %s over %s, filter %s, draws %s: %s" % (
                            sorted(table.items()), n, ftype, flt, ch, res)
                        for k, v in res.items():
                            require(k in avail, "%s names %s which does not exist" % (what, k))
                            require(0 < v <= avail[k], "%s gives %s of %s, there are %d" % (what, v, k, avail[k]))
                        want = total if n is None else min(n, total)
                        require(sum(res.values()) == want, "%s hands out %d, should be %d" %
                                (what, sum(res.values()), want))
                        if n is not None and n <= total:
                            top = max(avail.values())
                            big = [k for k in avail if avail[k] == top]
                            if len(big) == 1:
                                require(res.get(big[0], 0) >= (n * top) // total,
                                        "%s: the most abundant class gets less than its share" % what)
                    r, d, c = choice.explore(run, visit, case["depth"], 600)
                    if n is not None and n < total and len(avail) <= case["depth"]:
                        require(fair, "table %s, request %s over %s, filter %s: whatever the draws, some class gets less "
                                "than the whole part of its share" % (sorted(table.items()), n, ftype, flt))
                    st.states += r
                    st.transitions += d
    if st.sample is None:
        st.sample = "%d structures in %d classes, %d runs" % (sum(table.values()), len(table), st.traces)

"""Files in the formats the package documents: written and parsed here, independently of it."""
import sys


def write_enum_out(path, lat, k, rows, sizes=(1, 4), title="Random structure enumeration: 2020-01-01 10:00:00.0", extra=0):
    """rows: (H, diag, L, labeling, directions); numbered consecutively"""
    o = [title, "bulk"]
    o += [" ".join("%.9f" % x for x in v) for v in lat.vecs]
    o += ["    %d" % len(lat.basis)]
    o += ["  " + "   ".join("%.9f" % x for x in v) for v in lat.cart_basis]
    o += [" %d-nary case" % k, "   %d   %d" % tuple(sizes), " 1e-7", "Concentration check:", "    F",
          "full list of labelings (including incomplete labelings) is used ",
          "Equivalency list: 1 #Not used in the random enumeration algorithm ",
          "start   #tot      HNF     Hdegn   labdegn   Totdegn   #size idx    pg    SNF             HNF                 "
          "Left transform                          labeling                 directions"]
    last, cnt = None, 0
    for i, (H, diag, L, lab, dirs) in enumerate(rows):
        n = H[0][0] * H[1][1] * H[2][2]
        cnt = cnt + 1 if n == last else 1
        last = n
        h = [H[0][0], H[1][0], H[1][1], H[2][0], H[2][1], H[2][2]]
        o.append("%10d%10d%8d%9d%9d%12d%4d%6d  %s  %s  %s    %s    %s" % (
            i + 1, 1, 1, 1, 1, cnt, n, 1, " ".join("%3d" % x for x in diag), " ".join("%3d" % x for x in h),
            " ".join("%4d" % x for r in L for x in r), lab, dirs))
    with open(path, "w") as f:
        f.write("\n".join(o) + "\n")


def parse_poscar(path):
    ls = open(path).read().split("\n")
    title = ls[0]
    scale = float(ls[1])
    slv = [[float(x) for x in l.split()] for l in ls[2:5]]
    counts = [int(x) for x in ls[5].split()]
    mode = ls[6].strip()
    pos = [[float(x) for x in l.split()] for l in ls[7:] if l.strip()]
    return {"title": title, "scale": scale, "slv": slv, "counts": counts, "mode": mode, "pos": pos}


def parse_cfg(path):
    out = []
    cur = None
    ls = open(path).read().split("\n")
    i = 0
    while i < len(ls):
        t = ls[i].split()
        if t == ["BEGIN_CFG"]:
            cur = {"atoms": []}
        elif t == ["Size"]:
            i += 1
            cur["n"] = int(ls[i])
        elif t == ["SuperCell"] or t == ["Supercell"]:
            cur["slv"] = [[float(x) for x in l.split()] for l in ls[i + 1:i + 4]]
            i += 3
        elif t[:1] == ["AtomData:"]:
            cur["cols"] = t[1:]
        elif t[:1] == ["Feature"]:
            cur["title"] = " ".join(t[2:])
        elif t == ["END_CFG"]:
            out.append(cur)
            cur = None
        elif t and cur is not None:
            cur["atoms"].append((int(t[0]), int(t[1]), [float(x) for x in t[2:5]]))
        i += 1
    assert cur is None, "truncated CFG file"
    return out


def cli_structures(argv):
    """the makeStr command with these arguments"""
    from phenum import phenumStr
    old = sys.argv
    sys.argv = ["makeStr.py"] + [str(a) for a in argv]
    try:
        args = phenumStr._parser_options()
    finally:
        sys.argv = old
    phenumStr.run(args)


def cli_enum(argv):
    """the enumeration command with these arguments"""
    from phenum import enumeration
    old = sys.argv
    sys.argv = ["enumeration.py"] + [str(a) for a in argv]
    try:
        args = enumeration._parser_options()
    finally:
        sys.argv = old
    enumeration._script_enum(args)


def write_lattice_in(path, lat, sizes, k, concs=None, arrows=None):
    """concs: list of (lo, hi, denominator) per species; arrows: fraction of displaced atoms per species"""
    o = ["# cell sizes", "%d %d" % tuple(sizes), "bulk"]
    o += [" ".join(repr(float(x)) for x in v) for v in lat.vecs]
    o += ["%d" % k, "%d" % len(lat.basis)]
    o += [" ".join(repr(float(x)) for x in v) for v in lat.cart_basis]
    if concs is None:
        o += ["F"]
    else:
        o += ["T", "T" if arrows is not None else "F"]
        for i, c in enumerate(concs):
            o.append(" ".join(str(x) for x in c) + (" %s" % arrows[i] if arrows is not None else ""))
    with open(path, "w") as f:
        f.write("\n".join(o) + "\n")

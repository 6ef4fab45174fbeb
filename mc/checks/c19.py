"""C19: exactly the selected structures are written."""
import os
from .. import api, files, geom
from ..common import require
from .c17 import judge

BOUNDS = {"quick": "files of 1..7 structures on parents with 1-4 basis sites; every number -1..n+2, every range, all; four output "
                   "patterns, POSCAR and CFG; 14 kinds of invalid selections",
          "thorough": "files of 1..14 structures"}
ASSUMPTIONS = []
LATS = ("fcc", "hcp", "perov3", "perov4")
PATTERNS = ["P.{}", "POSCAR", "str_{}.vasp", "{}"]


def cases(tier):
    return [{"lat": name, "n": n, "config": c} for name in LATS if name in geom.ZOO
            for n in range(1, 8 if tier == "quick" else 15) for c in ("f", "t")]


def clean():
    for f in os.listdir("."):
        os.remove(f)


def rows_for(lat, n):
    rows = []
    size = 1
    while len(rows) < n:
        for H in geom.all_hnfs(size):
            diag, L = api.snf(H)
            N = size * len(lat.basis)
            i = len(rows)
            lab = "".join(str((i * j + j // 2 + (j == i % N)) % 2) for j in range(N))
            rows.append((H, diag, L, lab, "".join(str((i + j) % 7) for j in range(N))))
            if len(rows) == n or len(rows) % 4 == 0:
                break
        size = size % 3 + 1
    return rows


def selections(n):
    yield ["all"], set(range(1, n + 1))
    yield ["ALL"], set(range(1, n + 1))
    for i in range(1, n + 3):
        yield [str(i)], {i} & set(range(1, n + 1))
    for i in range(1, n + 2):
        for j in range(i, n + 3):
            yield [str(i), str(j)], set(range(i, j + 1)) & set(range(1, n + 1))


INVALID = [["x"], ["1", "x"], ["x", "1"], ["1", "2", "3"], ["1", "2", "3", "4"], ["1.5"], ["one"], ["1-3"], ["1,2"], ["al"],
           ["every"], ["1", "two"], ["1.0", "2"], None]


def explore(case, st):
    from phenum import phenumStr
    lat = geom.ZOO[case["lat"]]
    n = case["n"]
    cfg = case["config"] == "t"
    rows = rows_for(lat, n)
    opt = {"displace": .1}
    for pat in (["cfg"] if cfg else PATTERNS):
        for sel, want in selections(n):
            what = "%s, file of %d structures, selection %s, output %s, config %s" % (lat.name, n, sel, pat, case["config"])
            clean()
            files.write_enum_out("enum.out", lat, 2, rows)
            files.cli_structures(sel + ["-input", "enum.out", "-outfile", pat, "-displace", ".1", "-config", case["config"]])
            have = sorted(set(os.listdir(".")) - {"enum.out"})
            st.traces += 1
            st.states += 1
            st.transitions += len(want)
            st.outcome((tuple(sorted(want)), n))
            if cfg:
                got = {}
                if os.path.exists("cfg"):
                    for g in files.parse_cfg("cfg"):
                        i = int(g["title"].split("_")[-1])
                        require(i not in got, "%s: structure %d is written twice" % (what, i))
                        got[i] = g
                require(set(have) <= {"cfg"}, "%s: files %s" % (what, have))
                require(set(got) == want, "%s: wrote %s, should be %s" % (what, sorted(got), sorted(want)))
                o = {"config": "t", "displace": .1}
            else:
                name = {i: (pat.format(i) if "{}" in pat else "%s.%d" % (pat, i)) for i in want}
                require(have == sorted(name.values()), "%s: wrote %s, should be %s" % (what, have, sorted(name.values())))
                got = {i: files.parse_poscar(name[i]) for i in want}
                o = opt
            for i in sorted(want):
                judge(got[i], lat, rows[i - 1], 2, o, None, None, "%s, structure %d" % (what, i))
    for sel in INVALID:
        clean()
        files.write_enum_out("enum.out", lat, 2, rows)
        args = {"structures": sel, "input": "enum.out", "outfile": "P.{}", "displace": 0.0, "rattle": 0.0, "mink": "t",
                "species": None, "species_mapping": None, "config": case["config"], "remove_zeros": "f", "debug": False,
                "examples": False, "verbose": None, "action": "print"}
        try:
            phenumStr.run(args)
        except ValueError:
            err = True
        else:
            err = False
        have = sorted(set(os.listdir(".")) - {"enum.out"})
        require(err and not have, "selection %s of %s: %s, wrote %s" %
                (sel, case["lat"], "accepted" if not err else "refused", have))
        st.states += 1
    st.sample = "%s: %d structures, %d selections" % (lat.name, n, len(list(selections(n))))
    clean()

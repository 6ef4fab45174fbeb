#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/mkdocs.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, (pid, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": pid, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
              technique, note))


G = "phenum/grouptheory.py"
SGRAPH = "explicit-state exploration: "
MODEL = (" The reference state graph is built by an independent exact (rational/integer) geometry oracle in mc/geom.py;"
         " every enumerated behaviour is executed on the real functions imported from /repo.")

prop("C01", "Full enumeration lists every inequivalent structure exactly once",
     "For a parent lattice, supercell and concentration, the full enumeration (superperiodic structures kept, no "
     "displacements) returns exactly one representative of every symmetry class of the arrangements with that "
     "concentration: none missing, none twice, none with another composition. Two arrangements are in one class when "
     "an operation of the parent crystal that maps the supercell onto itself carries one to the other.",
     ["inputs", "configurations"],
     "every parent crystal (1-4 basis sites), every supercell (Hermite form) and every concentration vector of 2-4 species",
     "The tests compare a few dozen recorded outputs for fcc/bcc/hcp style cells; a lost branch of the tree, a wrong "
     "stabilizer or a wrong permutation appears only for particular combinations of cell, group and concentration.",
     ["phenum/tree.py", "phenum/phonons.py", G, "phenum/symmetry.py"],
     [("tree search over partial colorings with stabilizers", "phenum/tree.py:brancher"),
      ("canonical-representative test", "phenum/tree.py:_perm"), ("driver", "phenum/phonons.py:enum_sys")],
     ["enum_sys(None, concs, [0..], number, HNF, params, True)"],
     SGRAPH + "all colorings of each bounded cell, orbits under exact group generators, compared with the real enumeration",
     "Exhaustive within the bounds: every coloring of every explored cell is assigned its orbit and the returned list is compared orbit by orbit." + MODEL)

prop("C02", "Without superperiodic structures exactly the primitive ones remain",
     "With superperiodic structures excluded, the full enumeration without displacements returns exactly one "
     "representative of every symmetry class whose arrangement is not invariant under a non-trivial translation of the "
     "parent lattice inside the supercell, and no other.",
     ["inputs", "configurations"],
     "every parent crystal, every supercell and every concentration vector of 2-4 species",
     "Whether a period shorter than the cell is recognised depends on the supercell's quotient group and concentration; "
     "the tests record a handful of cells.",
     ["phenum/tree.py", "phenum/phonons.py", G],
     [("superperiodicity test in the tree search", "phenum/tree.py:_perm"), ("list filter", "phenum/tree.py:brancher")],
     ["enum_sys(None, concs, [0..], number, HNF, params, False)"],
     SGRAPH + "all colorings, orbits and translation stabilizers of each bounded cell against the real enumeration",
     "Exhaustive within the bounds." + MODEL)

prop("C03", "Displaced-atom enumeration lists every inequivalent structure once",
     "When a fraction of a species' atoms is displaced along the six axis directions, the full enumeration returns exactly "
     "one representative of every class of (arrangement, set of displaced atoms, displacement directions), where the "
     "operations of the supercell act on positions and directions together; with superperiodic structures excluded "
     "exactly the classes invariant under a non-trivial translation are left out.",
     ["inputs", "configurations"],
     "every parent crystal whose symmetry permutes the axes, every supercell, concentration and fraction of displaced atoms per species",
     "The space is a product of colorings and 6^k direction words; the tests record few single-displacement outputs.",
     ["phenum/phonons.py", "phenum/tree.py", G],
     [("direction words per displaced coloring", "phenum/phonons.py:add_arrows"), ("displaced species as extra colors", "phenum/phonons.py:arrow_concs"),
      ("direction permutations", G + ":_get_rotation_perms_lists")],
     ["enum_sys(None, concs, a_concs, number, HNF, params, supers)"],
     SGRAPH + "all colorings with direction words, orbits under exact generators, against the real enumeration",
     "Exhaustive within the bounds." + MODEL)

prop("C04", "The predicted number of structures is exact",
     "The predicted (Polya) count of a concentration, with or without displacements, equals the true number of classes of "
     "arrangements under the given permutation group, as an exact integer of any size, and equals the number of "
     "structures the full enumeration with superperiodic structures kept produces.",
     ["inputs"],
     "every permutation group (up to S6, and products with direction permutations) and every composition, and every supercell group up to tens of sites",
     "The tests check a fixed list of group files and counts; rounding, overflow, cycle-type and direction-cycle errors "
     "only change counts for particular groups or large counts.",
     ["phenum/polyaburnside.py", "phenum/numerics.py", "phenum/phonons.py"],
     [("cycle-index expansion per group element", "phenum/polyaburnside.py:polya"), ("restricted multinomial products", "phenum/polyaburnside.py:Product")],
     ["polya(concentrations, group, arrowings)"],
     SGRAPH + "every subgroup of S3..S5 (S6 thorough) with all compositions, orbits counted by explicit traversal or exact Burnside sum",
     "Exhaustive for the listed groups; for large cells the reference is an exact integer Burnside count, itself checked against explicit orbits on the small ones.")

prop("C05", "The supercell list has one representative of every class of superlattice",
     "The list of all supercells of index n contains every sublattice of index n exactly once in Hermite normal form; the "
     "symmetry-reduced list contains exactly one representative of each class of sublattices that are related by the point "
     "operations of the parent crystal.",
     ["inputs"],
     "every index n and every parent crystal of any symmetry (1-4 basis sites, up to 56 parents)",
     "The tests compare small recorded lists for some parents; whether two sublattices are merged depends on operation and tolerance for each pair.",
     ["phenum/HNFs.py", G, "phenum/symmetry.py"],
     [("all Hermite forms", "phenum/HNFs.py:find_all_HNFs"), ("merging equivalent lattices", "phenum/HNFs.py:remove_duplicate_lattices")],
     ["find_all_HNFs(n)", "get_HNFs(n, lattice vectors, basis, 3)"],
     SGRAPH + "the graph of all index-n sublattices under exact point operations, its orbits compared with the real list",
     "Exhaustive within the bounds." + MODEL)

prop("C06", "The supercell's permutation group is exactly its symmetry group",
     "For a parent crystal and a supercell, the permutations of atomic sites (and of displacement directions) that are "
     "computed are exactly those induced by the operations of the parent crystal that map the supercell lattice onto "
     "itself, translations included: none missing, none foreign, none listed twice, and they form a group.",
     ["inputs", "configurations"],
     "every parent crystal and every supercell, with and without displacement directions",
     "Recorded groups exist for some cells only; an error in a single operation with a fractional shift appears only in particular lattices and supercells.",
     [G, "phenum/symmetry.py"],
     [("operations that fix the superlattice", G + ":_get_sLV_fixing_operations"), ("permutations of the parent basis", G + ":_get_dvector_permutations"),
      ("permutations of supercell sites", G + ":_get_rotation_perms_lists")],
     ["get_sym_group(lattice, basis, HNF, 3, arrows)"],
     SGRAPH + "closure of the exact symmetry operations of each bounded supercell, compared as a set with the real group",
     "Exhaustive within the bounds." + MODEL)

prop("C07", "Point group and space group are complete and exact",
     "The point group of a lattice is exactly the set of orthogonal matrices that map the lattice onto itself, each once; "
     "the space group of a crystal is exactly the set of (rotation, translation modulo the lattice) that map every atom onto an atom of the same type, each once; "
     "neither depends on the choice of lattice vectors or on whether positions are given in Cartesian or lattice coordinates.",
     ["inputs"],
     "every lattice, every choice of its basis vectors, every decoration of its basis with atom types",
     "The tests use recorded outputs for standard settings of common lattices.",
     ["phenum/symmetry.py"],
     [("search over lattice vectors of equal length", "phenum/symmetry.py:get_lattice_pointGroup"), ("trial translations", "phenum/symmetry.py:get_spaceGroup")],
     ["get_lattice_pointGroup(vectors)", "get_spaceGroup(vectors, types, basis)"],
     "bounded exhaustive exploration: every zoo lattice x unimodular re-descriptions x decorations, against the exactly computed operation set",
     "Exhaustive within the bounds." + MODEL)

prop("C08", "Smith normal form is a correct decomposition",
     "For every non-singular integer matrix the Smith decomposition returns a diagonal with positive entries, each dividing the next, "
     "and integer matrices of determinant plus or minus one on both sides whose product with the input is exactly that diagonal; "
     "a singular input is refused.",
     ["inputs"],
     "every 3x3 integer matrix of the stated kinds",
     "The tests check a list of recorded matrices; the reduction loops take data dependent paths.",
     [G], [("reduction loops", G + ":SmithNormalForm")], ["SmithNormalForm(matrix)"],
     "bounded exhaustive enumeration of all matrices of the stated kinds, executed on the real code, against the determinantal-divisor definition",
     "Exhaustive: all Hermite forms up to the stated determinant, all matrices with entries -1..1 and more.")

prop("C09", "The numbering of arrangements is a bijection",
     "For every composition the numbering of its arrangements maps 0..N-1, N the multinomial coefficient, one to one onto the arrangements, "
     "and number and arrangement are inverse to each other, for colorings as for displacement words; "
     "factorials, binomial and multinomial coefficients are exact integers for arguments of any size.",
     ["inputs"],
     "every composition (all its arrangements and numbers), every displacement word over every number of directions",
     "The tests check recorded pairs; bijectivity needs all of them.",
     ["phenum/tree.py", "phenum/phonons.py", "phenum/numerics.py"],
     [("numbering of colorings", "phenum/tree.py:_hash,_invhash"), ("numbering of direction words", "phenum/phonons.py:_ahash,_ainvhash"),
      ("coefficients", "phenum/numerics.py")],
     ["_invhash/_hash", "_ahash/_ainvhash", "multinomial, binomial_coefficient, factorial"],
     "exhaustive enumeration of all numbers and all arrangements within the bounds on the real functions",
     "Exhaustive within the bounds.")

prop("C10", "The list of concentrations is exactly those allowed",
     "For a cell size and species count the list of concentrations contains every way to distribute the sites over the species exactly once, and with restricted ranges "
     "exactly those in which every species' fraction of the sites lies within its own closed range, bounds included.",
     ["inputs", "configurations"],
     "every cell size, number of basis sites, number of species and every combination of ranges with their own denominators",
     "The tests use a handful of ranges with a common denominator.",
     ["phenum/symmetry.py"], [("concentration filter", "phenum/symmetry.py:get_concs_for_size")],
     ["get_concs_for_size(size, species, restricted, basis sites, ranges)"],
     "exhaustive enumeration of sizes, species counts and range combinations within the bounds on the real function, against exact rationals",
     "Exhaustive within the bounds.")

prop("C11", "The distribution hands out what was asked for, never more than exists",
     "Distributing n structures over the tabulated counts gives a table whose entries sum to exactly min(n, available), where no entry exceeds the tabulated count of "
     "its size, supercell and concentration, whatever the random draws; 'all' hands out every structure; supercell and concentration filters "
     "restrict both the available total and the entries to exactly the matching rows and columns; the table shown on the screen is the one saved, and "
     "nothing is saved unless asked for.",
     ["schedules", "inputs", "configurations"],
     "every outcome of the random draws (to a depth), every request, dimension of distribution, filter and table within the bounds",
     "The random choices make each run one of exponentially many; tests fix one seed and one table.",
     ["phenum/structures.py"],
     [("sharing out", "phenum/structures.py:_distribute"), ("availability", "phenum/structures.py:_distribution_summary,_distribution"),
      ("enum.in", "phenum/structures.py:make_enum_in")],
     ["make_enum_in(...) and the enum.in file it writes"],
     "stateless model checking: every outcome of the random draws is enumerated by a controlled random source on the real code",
     "Exhaustive over the first draws (depth stated in the evidence), a fair fixed completion beyond.")

prop("C12", "A random subset is distinct, inequivalent and of the requested size",
     "Asking for n structures of a concentration returns exactly min(n, available) of them - available counting only non-superperiodic classes when those are excluded - "
     "and no two are equivalent, all have the requested composition and, with superperiodic structures excluded, none is superperiodic, whatever the random draws; "
     "an acceptance rate can only shorten the list.",
     ["schedules", "inputs", "configurations"],
     "every selection the random source can make (to a depth), every request size, cell, concentration and displacement fraction within the bounds",
     "Tests fix the seed; the replacement of rejected picks only runs for particular draws.",
     ["phenum/phonons.py", "phenum/tree.py"],
     [("random subset of the predicted classes", "phenum/tree.py:brancher"), ("selection and replacement", "phenum/phonons.py:enum_sys"), ("direction subsets", "phenum/phonons.py:add_arrows")],
     ["enum_sys(None, concs, a_concs, n, HNF, params, supers, accept)"],
     "stateless model checking: every outcome of the random draws is enumerated by a controlled random source on the real code, judged against the explicit orbit graph",
     "Exhaustive over the selections up to the stated cap." + MODEL)

exec(open(os.path.join(ROOT, "tools", "props2.py")).read())

LATER = "check not built yet; planned with the same controlled exploration"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, tech, note in P:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "mc", "checks", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": "bash run.sh %s quick" % i,
                           "thorough_cmd": "bash run.sh %s thorough" % i,
                           "technique": "model checking: " + tech, "level": "model_checking", "level_note": note})
        else:
            na.append({"property": i, "reason": LATER})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "run.sh CHECK [quick|thorough] [--replay FILE]; see DESIGN.md. No hooks in /repo are needed: the random "
                  "source is controlled by replacing the functions of Python's random module before the package is imported."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

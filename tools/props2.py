prop("C13", "Large spaces are sampled without duplicates and completely",
     "When the space of arrangements is too large (or too sparse) to be enumerated and structures are drawn by guessing, the returned "
     "structures still number exactly min(requested, available), have the requested composition, are pairwise inequivalent and, with "
     "superperiodic structures excluded, none is superperiodic; the search ends for every sequence of random draws.",
     ["schedules", "inputs"],
     "every sequence of the first random draws and every request size up to more than is available",
     "Tests fix a seed and compare one list; duplicates and starvation need particular sequences of draws.",
     ["phenum/tree.py", "phenum/phonons.py"],
     [("guess and check", "phenum/tree.py:guess_and_check_brancher"), ("choice of the method", "phenum/phonons.py:enum_sys")],
     ["enum_sys(...) with more than 100000 arrangements and few wanted, or a species with a single displaced atom"],
     "stateless model checking: the random draws are enumerated by a controlled random source on the real code, judged by exact canonical forms",
     "Exhaustive over the first draws (an even spread of each draw's domain where it is large), fair completion beyond." + MODEL)

prop("C14", "What the files say is what is computed: reading and writing are faithful",
     "Reading a lattice file gives exactly the sizes, vectors, basis, restriction flags and ranges written in it, whatever its comments, blank lines and spacing; "
     "reading back a list of systems, an enumeration file or a group file gives exactly the supercells, concentrations, numbers, transforms, labelings and directions that were written, "
     "with nothing dropped, reordered or shifted.",
     ["inputs"],
     "every combination of basis size, species count, restriction, displacement flag and layout; every structure of every bounded enumeration",
     "The tests read a few recorded files.",
     ["phenum/io_utils.py"],
     [("lattice file", "phenum/io_utils.py:read_lattice"), ("system list", "phenum/io_utils.py:read_enum"), ("enumeration file", "phenum/io_utils.py:write_enum,read_enum_out"),
      ("group file", "phenum/io_utils.py:read_group"), ("labeling strings", "phenum/io_utils.py:create_labeling")],
     ["read_lattice", "read_enum", "write_enum + read_enum_out", "read_group", "create_labeling", "write_struct_enum"],
     "exhaustive enumeration of the bounded product of file layouts and contents, each written and read back by the real code",
     "Exhaustive within the bounds.")

prop("C15", "A structure mapped to real space is the one that was enumerated",
     "Mapping an enumerated structure to real space gives lattice vectors spanning exactly the supercell lattice of its Hermite form and exactly one "
     "position for every site of the supercell (index times basis atoms, all different modulo the supercell), each carrying the site index - hence type and "
     "direction - that the structure's labeling assigns to that coset; reducing the basis first changes the vectors but not the crystal, and direct coordinates "
     "times the lattice vectors give back the same Cartesian positions modulo the supercell.",
     ["inputs", "configurations"],
     "every supercell (Hermite form) of every parent up to the index bound, with the transform written for it, with and without basis reduction",
     "The tests map recorded structures of a few supercells; the summation limits and transforms depend on all six entries of the Hermite form.",
     ["phenum/vector_utils.py"],
     [("mapping", "phenum/vector_utils.py:map_enumStr_to_real_space"), ("coordinates", "phenum/vector_utils.py:cartesian2direct")],
     ["map_enumStr_to_real_space(system, structure, reduce)", "cartesian2direct"],
     "bounded exhaustive exploration of all Hermite forms x parents x reduction on the real code against exact coset arithmetic",
     "Exhaustive within the bounds." + MODEL)

prop("C16", "Basis reduction returns a Minkowski-reduced basis of the same lattice",
     "Reducing three linearly independent lattice vectors returns vectors that generate exactly the same lattice, are right-handed and satisfy the "
     "Minkowski conditions (no integer combination shortens any of them); the sum of their squared lengths is never larger than that of the input. "
     "The test of the Minkowski conditions accepts a basis exactly when it is ordered by length and all of them hold.",
     ["inputs"],
     "every integer 3x3 basis within the bounds and every supercell of every parent lattice",
     "The tests reduce recorded cells; the reduction path depends on every dot product.",
     ["phenum/vector_utils.py"], [("reduction", "phenum/vector_utils.py:_minkowski_reduce_basis")],
     ["_minkowski_reduce_basis(vectors, eps)"],
     "exhaustive enumeration of bounded integer bases and of all bounded supercells, executed on the real code, checked in exact arithmetic",
     "Exhaustive within the bounds.")

prop("C17", "Structure files describe the enumerated structure",
     "The POSCAR or CFG written for a structure contains exactly its atoms: species counts as in its labeling (species without atoms as requested), positions in species order, the supercell lattice, "
     "and each displaced atom moved from its site by the requested Cartesian distance along its direction, randomised by at most the requested fraction, undisplaced atoms exactly on site; "
     "CFG files hold the same crystal in Cartesian coordinates multiplied by the lattice parameter, with species renamed by the requested mapping.",
     ["inputs", "configurations", "schedules"],
     "every structure of the bounded enumerations, every combination of options, and both extremes and the middle of every random rattle",
     "Tests compare few recorded files without displacements in oblique cells.",
     ["phenum/io_utils.py", "phenum/phenumStr.py", "phenum/vector_utils.py"],
     [("POSCAR", "phenum/io_utils.py:write_POSCAR"), ("CFG", "phenum/io_utils.py:write_config"), ("driver", "phenum/phenumStr.py:run,_make_structures")],
     ["phenumStr.run(args) and the files it writes"],
     "bounded exhaustive exploration of structures x options x enumerated random rattles, files parsed and compared as crystals with the exact model",
     "Exhaustive within the bounds." + MODEL)

prop("C18", "The lattice parameter follows Vegard's law for every element",
     "For a list of elements and concentrations the lattice parameter is the concentration-weighted mean of the elements' own lattice parameters, each the cube root of the "
     "element's tabulated atomic volume divided by the parent volume per basis atom; it is independent of the order of the species, of a common factor in the concentrations and of species with zero concentration, "
     "the title names exactly the elements present (or all, unless zeros are removed), and a wrong number of names is refused.",
     ["inputs"],
     "every tabulated element, every pair of elements with every concentration within the bounds, every parent lattice",
     "The tests compute a few elements.",
     ["phenum/element_data.py"], [("Vegard", "phenum/element_data.py:get_lattice_parameter"), ("element", "phenum/element_data.py:get_lat_param_element")],
     ["get_lattice_parameter(elements, concentrations, vectors, atoms, title)"],
     "exhaustive enumeration of elements, pairs, concentrations and lattices within the bounds on the real function",
     "Exhaustive within the bounds; the table of volumes is compared with a committed copy.")

prop("C19", "Exactly the selected structures are written",
     "Selecting one structure number, an inclusive range of numbers or all of them writes exactly one file (or CFG entry) per selected structure, named after its number and holding that structure; "
     "anything else is refused with an error and writes nothing.",
     ["inputs", "configurations"],
     "every selection over files of 1..n structures, every output pattern, with basis sizes varied",
     "Tests select a few recorded numbers.",
     ["phenum/phenumStr.py", "phenum/io_utils.py"],
     [("selection", "phenum/phenumStr.py:run"), ("reader", "phenum/io_utils.py:read_enum_out")],
     ["phenumStr.run(args)", "the set of files written"],
     "exhaustive enumeration of all selections on bounded enumeration files, executed on the real driver",
     "Exhaustive within the bounds.")

prop("C20", "The workflow's files agree with each other and with the enumeration",
     "Whatever sequence of counting, distributing and enumerating steps is run, the count tables hold the exact number of structures for every allowed supercell and concentration with consistent totals, "
     "the list of systems asks for exactly what was distributed, and the enumeration file lists for each system exactly that many structures with its own supercell and transforms, sorted by size and numbered consecutively, "
     "superperiodic ones included or not as requested.",
     ["histories", "configurations"],
     "every sequence of the steps up to a depth, for several lattice files (restricted, displaced, several species and sizes)",
     "The tests run single steps from prepared inputs and compare with recorded files.",
     ["phenum/enumeration.py", "phenum/structures.py", "phenum/io_utils.py"],
     [("steps", "phenum/enumeration.py:_polya_out,_enum_in,_enum_out"), ("command", "phenum/enumeration.py:_script_enum")],
     ["_script_enum(args) and the files it writes"],
     "explicit-state exploration of all step sequences to a depth on the real commands; every file judged against the exact orbit model",
     "Exhaustive within the bounds." + MODEL)

prop("C21", "A fixed seed fixes the result",
     "Running the same step with the same seed and the same inputs gives the same files, byte for byte except the date, no matter which random numbers were consumed before, in which order the directory lists the input files, "
     "or how the interpreter hashes strings.",
     ["schedules", "configurations", "histories"],
     "every order of directory listing of up to four files, several prior histories and hash seeds, each step and distribution",
     "Tests run each step once in one process.",
     ["phenum/structures.py", "phenum/enumeration.py"],
     [("seeding", "phenum/structures.py:_distribute"), ("input files", "phenum/structures.py:make_enum_in"), ("enumeration", "phenum/enumeration.py:_enum_out")],
     ["_script_enum(args) and the files it writes"],
     "exhaustive enumeration of listing orders x prior histories x hash seeds, executed on the real commands",
     "Exhaustive within the bounds.")

prop("C22", "Results do not depend on what was computed before",
     "Every computation returns the same result whatever other computations were run before it in the same process, whatever a caller did with earlier results, and leaves the lists and tables it was given as they were.",
     ["histories"],
     "every sequence of calls (up to depth 3) over an alphabet of enumerations, counts, groups, mappings and file steps, and every ordered pair of argument combinations per function",
     "Each test starts from fresh inputs; leaked state or modified arguments show only in sequences.",
     ["phenum/tree.py", "phenum/phonons.py", "phenum/polyaburnside.py", G, "phenum/HNFs.py", "phenum/symmetry.py", "phenum/vector_utils.py"],
     [("shared state", "phenum/tree.py:brancher"), ("group arguments", "phenum/phonons.py:enum_sys"), ("counting", "phenum/polyaburnside.py:polya")],
     ["the public functions' results and their arguments"],
     "explicit-state exploration of all call sequences to depth 3 over an alphabet of real calls, compared with fresh results",
     "Exhaustive within the bounds.")

prop("C23", "Results do not depend on how the crystal is described",
     "Describing the same parent crystal by other lattice vectors, another origin, another order of the basis atoms, another orientation or another length scale leaves "
     "the number of supercells, the number of operations of each supercell and the number of structures of every concentration unchanged.",
     ["inputs", "configurations"],
     "every bounded re-description (unimodular changes of basis, shifts, permutations, rotations, scales) of every parent",
     "The tests use one description of each crystal.",
     ["phenum/symmetry.py", G, "phenum/HNFs.py"],
     [("point and space group", "phenum/symmetry.py:get_spaceGroup"), ("supercells", "phenum/HNFs.py:get_HNFs"), ("supercell group", G + ":get_sym_group")],
     ["get_HNFs", "get_sym_group", "polya"],
     "bounded exhaustive exploration of re-descriptions; multisets of exact group orders and counts compared on the real code",
     "Exhaustive within the bounds.")

prop("C24", "A group generated from permutations is exactly the closure",
     "Generating a group from permutations of sites, or of sites and directions together, returns exactly the closure of the generators under composition, every element once; "
     "combining a supercell's translations with one operation of each remaining kind gives exactly its full symmetry group, every element once.",
     ["inputs"],
     "every set of up to three generators over up to five points (and pairs with direction permutations)",
     "The tests use recorded groups of some cells.",
     [G, "phenum/polyaburnside.py"],
     [("closure", G + ":a_group,a_group_gen,_group"), ("closure", "phenum/polyaburnside.py:group")],
     ["a_group(trans, rots)", "a_group_gen(trans, rots)", "group(generators)"],
     "exhaustive enumeration of all bounded generator sets on the real functions against explicit closure",
     "Exhaustive within the bounds.")

prop("C25", "Bringing atoms into the cell moves them by lattice vectors only",
     "For any right or left handed cell, bringing a position into the cell returns a position that differs from it by a lattice vector and whose lattice coordinates "
     "are at least zero and less than one (within the tolerance), wherever the position was and however close to a face; converting Cartesian to direct coordinates does the same.",
     ["inputs"],
     "every cell and every position, near and far, inside and on the faces",
     "The tests bring the origin into the unit cube; faces, far cells and skewed cells appear only for particular crystals.",
     ["phenum/symmetry.py", "phenum/vector_utils.py"],
     [("bring into the cell", "phenum/symmetry.py:bring_into_cell"), ("direct coordinates", "phenum/vector_utils.py:cartesian2direct")],
     ["bring_into_cell(vec, cart_to_latt, latt_to_cart, eps)", "cartesian2direct(sLV, aBas, eps)"],
     "exhaustive enumeration of a grid of positions (faces approached from both sides) in every bounded cell, executed on the real functions",
     "Exhaustive within the bounds.")

prop("C26", "The pictures show every supercell with all its atoms",
     "Plotting a list of supercells draws exactly one picture per listed supercell, in the order of the list and saved under its six numbers when saving, and each shows exactly one atom "
     "for every site of that supercell (index times basis atoms, all different modulo the supercell) at a site of the parent crystal; the picture of the shape also shows exactly the "
     "twelve edges of a cell with a corner at the origin whose edge vectors span the supercell lattice.",
     ["inputs"],
     "every supercell of every parent up to the index bound, lists in both orders, both kinds of picture, through the command and directly",
     "The tests only call the plotting for one list of one parent and look at nothing.",
     ["phenum/visualize.py", "phenum/enumeration.py"],
     [("shapes", "phenum/visualize.py:HNF_shapes"), ("atoms", "phenum/visualize.py:HNF_atoms"), ("command", "phenum/enumeration.py:_plot_HNFs")],
     ["HNF_shapes(enum, lattice, show, testmode)", "HNF_atoms(...)", "enumeration.py -visualize [-shapes]"],
     "bounded exhaustive exploration of supercells x parents x kinds of picture on the real code, the drawing calls recorded and judged against exact coset arithmetic",
     "Exhaustive within the bounds." + MODEL)

prop("C27", "The files named on the command line are the ones used, and no others",
     "Every command reads the lattice, count tables, list and enumeration file its options name (the documented default names when an option is left out) and writes exactly the output it names: "
     "two projects kept in one directory under different names evolve exactly as each would alone in a directory under the default names, whatever is done to the other one in between.",
     ["histories", "configurations"],
     "every interleaving of the commands of two projects in one directory, every combination of given and omitted file options",
     "The tests give each command its file names one at a time in a directory prepared for it.",
     ["phenum/enumeration.py", "phenum/phenumStr.py", "phenum/structures.py", "phenum/io_utils.py"],
     [("defaults and overrides", "phenum/enumeration.py:_script_enum"), ("finding the count tables", "phenum/structures.py:make_enum_in"),
      ("building what is missing", "phenum/enumeration.py:_enum_in"), ("structure files", "phenum/phenumStr.py:run")],
     ["enumeration.py -polya/-distribution/-enum with -lattice, -input, -outfile", "makeStr.py with -input, -outfile"],
     "explicit-state exploration of the product of two projects' directory states on the real commands, checked against the states each reaches alone (non-interference)",
     "Exhaustive within the bounds.")

prop("C28", "Asking for more output, or for the examples, changes nothing but what is shown",
     "Every command given -verbose or -debug ends the same way and leaves byte for byte the same files as without (the date in an enumeration file apart) and still shows everything it shows "
     "without, and every search returns the same structures at every level of verbosity, whether or not the optional progress-bar library is installed; asking for the examples shows them, "
     "ends normally and changes no file.",
     ["histories", "configurations"],
     "every command from every reachable project state, every kind of search at every verbosity level under every bounded outcome of its random draws",
     "The tests never run with the progress reports on: the code that only runs then is excluded from their coverage.",
     ["phenum/enumeration.py", "phenum/phenumStr.py", "phenum/tree.py", "phenum/phonons.py", "phenum/msg.py", "phenum/base.py"],
     [("verbosity", "phenum/msg.py:set_verbosity"), ("option", "phenum/base.py:exhandler"), ("searches", "phenum/tree.py:brancher,guess_and_check_brancher"),
      ("displacements", "phenum/phonons.py:add_arrows"), ("scripts", "phenum/enumeration.py:__main__"), ("scripts", "phenum/phenumStr.py:__main__")],
     ["enumeration.py ... -verbose -debug -examples", "makeStr.py ... -verbose -debug -examples", "enum_sys at any msg.set_verbosity level"],
     "explicit-state exploration of project states and stateless exploration of random draws on the real code, each execution compared with the one without the option (self-composition)",
     "Exhaustive within the bounds.")

prop("C29", "An interrupted step, run again, leaves what an uninterrupted one leaves",
     "Whatever moment a command of either script is stopped at, whatever part of the file being written has reached the disk, running the same command again ends the way it would have "
     "ended without the interruption and leaves the same project files (count tables, list of systems, enumeration file, saved distribution, structure files; the date apart); meanwhile "
     "no file other than those the command makes is touched. This includes commands which first make the count tables or the list that are missing: partial ones are never taken for whole.",
     ["crash_points", "histories"],
     "every file operation of every command from every reachable project state, the last write lost, torn or complete, then the same command again",
     "No test stops a command midway; whether what it leaves is reused depends on which of the files exist at that moment.",
     ["phenum/enumeration.py", "phenum/structures.py", "phenum/io_utils.py", "phenum/phenumStr.py"],
     [("tables built", "phenum/enumeration.py:_polya_out,_enum_in"), ("list built", "phenum/enumeration.py:_enum_out"), ("list written", "phenum/structures.py:_print_distribution"),
      ("enumeration file", "phenum/io_utils.py:write_enum"), ("structure files", "phenum/io_utils.py:write_POSCAR")],
     ["enumeration.py -polya/-distribution/-enum, interrupted and repeated", "makeStr.py, interrupted and repeated"],
     "exhaustive crash-point and torn-write enumeration over an explicit state graph of the real commands: file operations are recorded, every prefix of them is materialised and the command run again",
     "Exhaustive within the bounds.")

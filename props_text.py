# ------------------------------------------------------------------ symbolic MPO generation
STM = "explicit-state model checking of operation histories on the real code, compared step by step with an independent model"
p("F01", "The generated operator matrices are exactly the sum of the added terms",
  "For every sequence of interaction terms added to a finite chain, multiplying the generated site matrices from left to right gives exactly the sum of those terms: each term appears with its own operators and coefficient once per time it was added (also when an identical term, on-site or not, is added again), with the site's own identity operator on all other sites, and nothing else appears. Generating is a pure query: it can be repeated and gives the same result.",
  ["histories", "inputs"], "all histories of term additions (any supports, overlaps, repetitions, orders, coefficients), chain lengths and per-site identity operators",
  "The two matrix tests build a handful of chains of up to 5 sites with one kind of operator and compare against hand-written matrices; sums over arbitrary histories, repetitions, different identities and coefficients are never expanded and compared.",
  [FSM, ALG, SPM], [("term registration", FSM + ": FSM::AddPath"), ("matrix generation", FSM + ": FSM::GenMatRepr, FSM::CastFSMPathToMatRepr_")],
  ["matrices returned by the generator, multiplied out"],
  [("ready/final flags and intermediate state counters", "which automaton states exist between sites", FSM + ": FSM members")],
  technique="exhaustive enumeration of term-addition histories on the real generator, each expanded and compared with a polynomial oracle",
  level_note="All histories up to the stated bounds are executed; chain length, number of terms and operator alphabet are bounded.")
p("F02", "Compressing the operator matrices never changes the operator",
  "For every sequence of added terms the compressed matrices multiply out to exactly the same operator as the uncompressed ones, neighbouring matrices still chain, the outer dimensions stay one, and no bond becomes larger than without compression. The same holds for compressing any single pair of neighbouring matrices by columns or by rows.",
  ["histories", "inputs"], "all histories of term additions within the coefficient-on-first-operator domain, and all small matrix pairs",
  "The existing test compresses three hand-picked chains; which rows and columns are proportional, and how coefficients move to the neighbour, depends on the combination of terms.",
  [FSM, ALG, SPM], [("column/row compression", ALG + ": SparOpReprMatColCompresser, SparOpReprMatRowCompresser"), ("delinearization", ALG + ": SparOpReprMatColDelinearize, SparOpReprMatRowDelinearize"), ("chain compression", FSM + ": FSM::GenCompressedMatRepr")],
  ["compressed matrices, multiplied out", "bond dimensions"],
  technique="exhaustive enumeration of term histories and matrix pairs on the real compressor, each product compared before and after",
  level_note="Bounded chain length, term count and alphabet; coefficients on the first operator of a term.")
p("F03", "Sparse symbolic matrices behave like dense ones under every operation history",
  "After any sequence of element writes (including writing the null element), row/column removals, swaps, permutations, sorts, copies and assignments, every element, row, column, null query, equality comparison and shape is what the same operations give on a plain dense matrix. Sorting returns the permutation it applied and orders rows or columns by their number of non-null entries; copies are independent of the original.",
  ["histories"], "all operation histories on coefficient and operator matrices",
  "The tests apply each operation once to random matrices; the storage keeps stale entries and indices whose effect shows only after combinations of operations.",
  [SPM, ALG], [("index indirection", SPM + ": SparMat::SetElem, RemoveRow, RemoveCol, SwapTwoRows, SwapTwoCols, TransposeRows, TransposeCols"), ("sorting", ALG + ": SparOpReprMat::SortRows, SortCols")],
  ["element, row, column, null, equality and shape queries"], [("data / indexes", "stored elements and their positions", SPM + ": SparMat")],
  technique=STM + " (all histories to a depth, plus breadth-first search over all reachable dense states, ASan+UBSan)",
  level_note="Matrix sizes up to 4x2/3x3 and the stated depths.")
p("F04", "Symbolic coefficients and operators obey the algebra they denote",
  "Addition of coefficients and of operators is commutative and associative, does not change its operands, and the numeric value of a sum is the sum of the values; equality holds exactly when the summands agree regardless of order, the ordering is a strict order consistent with that equality, and repeated basis operators are accumulated. Splitting an operator into coefficient and base and multiplying back gives the operator, copies are equal, and the printed form lists every summand.",
  ["inputs"], "all pairs and triples of coefficients and operators",
  "Tests check random single instances of a few identities; laws quantify over all pairs and triples.",
  [ALG], [("coefficients", ALG + ": CoefRepr"), ("operators", ALG + ": OpRepr, SeparateCoefAndBase, CoefReprOpReprIncompleteMulti")],
  ["label lists, comparison results, numeric realization, printed text"],
  technique="exhaustive enumeration of all pairs and triples over a bounded alphabet on the real code against a multiset model",
  level_note="Labels 0-3, up to three summands, up to three basis operators (ASan+UBSan).")
p("F05", "Object labels are stable, unique and dense",
  "Whatever the order of requests, an object gets the same label every time, different objects get different labels, labels are handed out consecutively in order of first use starting with the seed object, and the label table lists exactly the requested objects; copies are independent.",
  ["histories"], "all histories of label requests, with and without a seed object",
  "One test converts a short fixed sequence.", [FSM], [("label table", FSM + ": LabelConvertor")], ["labels and the label table"],
  technique=STM, level_note="All request histories up to the stated length over 5 objects.")
p("F06", "Unit-cell operator matrices give the sum of all translates of the added terms",
  "For every set of distinct multi-site terms added to an infinite chain with a unit cell, the unit-cell matrices repeated over any finite window and read from the starting to the finished state give exactly the sum of all translates of those terms that fit in the window, with the identity elsewhere; terms sharing leading operators, wrapping around the cell or longer than the cell are included.",
  ["histories", "inputs"], "all ordered sets of distinct terms, unit-cell sizes, window offsets",
  "The infinite automaton has no test at all.", [IFSM, FSM], [("path sharing", IFSM + ": iFSM::AddPath"), ("matrix generation", IFSM + ": iFSM::GenMatRepr")],
  ["unit-cell matrices, multiplied over a window"], [("links", "per-site transition table of the automaton", IFSM + ": iFSM::fsm_nn_links_set_")],
  technique="exhaustive enumeration of term histories on the real generator, windows expanded and compared with a polynomial oracle",
  level_note="Cells of up to 4 sites, terms up to 6 sites, up to 3 (4) terms.")
# ------------------------------------------------------------------ containers and utilities
DUO = H + "one_dim_tn/framework/duovector.h"
p("C01", "Tensor containers own their elements: no leak, no sharing, no loss",
  "Under every sequence of construction, copy, move, (self-)assignment, element allocation and release, writing, adopting a pointer, clearing and destruction, each container holds exactly the values that value semantics prescribe, no two places share an element, moving leaves the source without elements, and every element is released exactly once.",
  ["histories"], "all operation histories on pools of containers",
  "Three tests exercise each operation once on a single vector, without aliasing, self-assignment, reuse after move or release accounting.",
  [DUO, H + "one_dim_tn/framework/ten_vec.h"], [("ownership", DUO + ": DuoVector copy/move/assign/alloc/dealloc/clear")], ["element values, presence, sizes, emptiness", "number of live elements"],
  [("raw_data_", "owning pointers, null when absent", DUO)],
  technique=STM + " (breadth-first over all reachable pool states plus all histories to a depth; instance accounting, ASan+UBSan)",
  level_note="Pools of up to 3 containers with up to 3 slots.")
CPP = H + "case_params_parser.h"
p("C02", "Parameter files are read exactly, and wrong types are never silently accepted",
  "For every parameter value and accessor: if the value has the documented type (and fits it), the strict, defaulting and trying accessors all return exactly that value; otherwise strict and defaulting accessors end the program with exit code 1 and a message naming the file, key and actual type, and the trying accessor returns false and leaves its output untouched. Defaults are used only for missing keys, keys outside the parameter object are never seen, no accessor influences a later one, and unreadable, parameter-less or malformed files are never accepted.",
  ["inputs", "histories"], "all value shapes x accessors, accessor histories, file shapes and truncations",
  "The test reads two fixed files with one well-typed and one ill-typed value per accessor and never runs an exiting accessor.",
  [CPP, "docs/params_parser_guide.md"], [("strict parse", CPP + ": StrictParse"), ("try parse", CPP + ": TryParseStrict, TryParseSizeTVec"), ("construction", CPP + ": CaseParamsParserBasic")],
  ["returned values, exit code, diagnostics on standard error"],
  technique="exhaustive enumeration of values x accessors, accessor histories and file truncations on the real parser against a typing table",
  level_note="Value alphabet of 33 scalars, arrays up to length 3, histories up to length 3 (4).")
MEM = H + "memory_monitor.h"
p("C03", "The memory monitor reports the system's figures consistently",
  "For every answer of the operating system the reported total and free amounts are the system's figures (including buffers and the reporting unit) in GiB, used plus free equals total, the printed checkpoint and summary show the same figures and the given message, and a failing query is reported as an error instead of figures.",
  ["inputs", "fault_sequences"], "all combinations of system answers and query failures",
  "No test covers the monitor.", [MEM], [("query", MEM + ": MemoryMonitor::GetMemoryInfo"), ("report", MEM + ": Checkpoint, ListAvailableDevices")], ["returned figures, printed text, exceptions"],
  technique="exhaustive enumeration of system answers and faults injected into the real monitor", level_note="8 sizes, 5 units, success/failure; the system call is replaced by a stub.")
LZP = H + "algorithm/lanczos_params.h"
p("C04", "Solver parameter records carry exactly the values they were given",
  "Every way of constructing, copying or assigning a solver parameter record keeps tolerance and iteration limit unchanged, unspecified ones take the documented defaults (1e-7 and 200), and copies are independent.",
  ["inputs"], "all construction routes and values", "No test covers the records.", [LZP], [("construction", LZP + ": LanczosParams")], ["fields of the record"],
  technique="exhaustive enumeration of construction routes and values on the real code", level_note="9 tolerances x 8 limits.")
# ------------------------------------------------------------------ tensor networks
GEN, MPSH, MPOH = H + "one_dim_tn/mpo/mpogen/mpogen.h", H + "one_dim_tn/mps/finite_mps/finite_mps.h", H + "one_dim_tn/mpo/finite_mpo/finite_mpo.h"
TV, UT = H + "one_dim_tn/framework/ten_vec.h", H + "utilities.h"
MINI, MOPS = H + "one_dim_tn/mps/finite_mps/finite_mps_init.h", H + "one_dim_tn/mps/finite_mps/finite_mps_ops.h"
UNB = "The existing tests of this part need a tensor library that is absent here and sample a few random instances; "
p("G01", "The generated Hamiltonian MPO is exactly the sum of the added terms",
  "For every sequence of AddTerm calls in any of its forms (one-site, two-site, many-body, with strings of operators inserted in between, at chosen sites or up to the chain's end), both the compressed and the uncompressed MPO and the matrix representation of the Hamiltonian expand to exactly the sum of the added terms with the identity on all other sites. Chain ends have bond dimension one, zero coefficients add nothing, and sites of different kinds can be mixed.",
  ["histories", "inputs"], "all sequences of term additions, chain lengths, site types and coefficients",
  UNB + "no sampled Hamiltonian shows how terms interact in shared automaton states and in compression.",
  [GEN, H + "one_dim_tn/mpo/mpogen/mpogen_impl.h", H + "one_dim_tn/mpo/mat_repr_mpo.h"], [("term registration", H + "one_dim_tn/mpo/mpogen/mpogen_impl.h: MPOGenerator::AddTerm"), ("tensor assembly", H + "one_dim_tn/mpo/mpogen/mpogen_impl.h: MPOGenerator::Gen, GenMatReprMPO")],
  ["MPO tensors and operator matrices, multiplied out to a dense operator"],
  technique="exhaustive enumeration of AddTerm sequences on the real generator, every result expanded and compared with the summed operator",
  level_note="Up to 5 sites and the stated depths; the tensor library is a stand-in.")
p("S01", "Predefined sites and operators have their textbook matrix elements",
  "For every predefined site type (spin-1/2, t-J, Hubbard) and every symmetry it supports, the local basis carries the documented quantum numbers, and every predefined operator (ladder, number, spin, fermion sign and composite operators) has exactly the matrix elements and charge that its definition in terms of fermion or spin operators prescribes. Copies of a site or operator set stay valid after the original is gone. A chain of sites keeps its local spaces in order, all pointing outward, with their identity operators, and copying, assigning and comparing chains respects this.",
  ["inputs"], "all site types, symmetries, element types and operators",
  UNB + "no test compares the complete operator tables.",
  [H + "model_relevant/sites/model_site_base.h", H + "model_relevant/operators/operators_all.h"], [("operator tables", H + "model_relevant/operators/: SpinOneHalfOperators, tJOperators, HubbardOperators")],
  ["matrix elements and charges of the operator tensors"],
  technique="exhaustive enumeration of operators, symmetries and copies on the real code against Fock-space matrices (ASan+UBSan)",
  level_note="The table is finite and covered completely; the tensor library is a stand-in.")
p("S02", "Coupling helpers add exactly the Hamiltonian terms they name",
  "For every pair of sites in either order and every amplitude, the helpers for Heisenberg coupling, Hubbard hopping and t-J hopping add exactly the operator they are named after: spin exchange with the given strengths, and Hermitian hopping with the fermion signs of all sites in between. Repeated calls add up. A t-J hop from a site to itself is refused.",
  ["inputs", "histories"], "all site pairs, amplitudes and sequences of calls",
  UNB + "sampled energies on nearest-neighbour chains cannot show a wrong sign on a long or reversed bond.",
  [H + "model_relevant/operators/operators_all.h", GEN], [("couplings", H + "model_relevant/operators/: AddHeisenbergCoupling, AddHubbardHoppingTerms, AddTJHoppingTerms")],
  ["generated MPO expanded to a dense operator"],
  technique="exhaustive enumeration of call sequences on the real helpers and generator against Jordan-Wigner matrices",
  level_note="Chains of 2-4 sites, the stated amplitudes and depths; the tensor library is a stand-in.")
p("G02", "Operations on matrix product operators are exact operator algebra",
  "Under every history of canonicalization, centering, truncation, scaling, normalization, addition, multiplication, copying, dumping and loading, a finite MPO represents exactly the operator that algebra on the original operators gives, and its center and canonical records are true of its tensors. A product compressed by variational sweeps respects the bond limit, is the best approximation for the bond space it ends with, and is exact when the bond limit and the initial guess allow it; the thermal operator exp(-tau H) equals its truncated series up to the compression.",
  ["histories", "inputs"], "all operation histories on pairs of operators; all operator pairs, guesses, bond limits, sweep counts and series orders",
  UNB + "the finite MPO tests cover single calls on one chain.",
  [H + "one_dim_tn/mpo/finite_mpo/finite_mpo.h", H + "one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h", H + "one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h"],
  [("algebra", H + "one_dim_tn/mpo/finite_mpo/finite_mpo.h: FiniteMPO"), ("products", H + "one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h: MpoProduct"), ("thermal operator", H + "one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h: ExpFiniteMPO")],
  ["dense operator contracted from the tensors", "center and canonical types", "bond dimensions"],
  technique=STM + " (depth-first over all operation histories; ASan+UBSan on a shallower space), and enumeration of products and series",
  level_note="Chains of 2-4 sites and the stated depths; the tensor library is a stand-in.")
p("G03", "Operations on matrix product states change the state only as documented",
  "Under every history of canonicalization, centering, copying, adding, reversing, truncating, normalizing, dumping and loading, the represented state vector changes only as the operation says, and whatever center and left/right-canonical records the object reports are true of its tensors. Inner products equal those of the state vectors, truncation respects the bond limit, returns a normalized state and loses at most the discarded weight, and reversing mirrors sites and records.",
  ["histories"], "all operation histories on pairs of states",
  UNB + "stale records show only when an operation that trusts them follows one that invalidates them.",
  [MPSH, H + "one_dim_tn/mps/mps.h", MOPS, TV], [("records", MPSH + ": operator[], Centralize, LeftCanonicalize, RightCanonicalize, LoadTen"), ("truncation", MPSH + ": TruncateMPS"), ("sum and overlap", MOPS + ": FiniteMPSAdd, FiniteMPSInnerProd")],
  ["state vector contracted from the tensors", "center and canonical types", "bond dimensions"],
  [("center_, tens_cano_type_", "what is known about the canonical form", MPSH)],
  technique=STM + " (depth-first over all operation histories; ASan+UBSan on a shallower space)",
  level_note="Chains of 2-4 sites and the stated depths; the tensor library is a stand-in.")
p("G04", "What is loaded is what was dumped, and damaged storage is reported",
  "For every state, operator and operator group, loading after dumping restores exactly the same tensors, whatever was loaded or stored before. A write that runs out of space at any byte is reported and never loses the tensor from memory, and a file that is missing or cut at any length is reported instead of being used; a damaged center record may only be forgotten, never wrong.",
  ["fault_sequences", "histories"], "all write budgets, truncation lengths, missing files and dump/load histories",
  UNB + "no test injects a write or read fault.",
  [TV, H + "one_dim_tn/mps/mps.h", MPOH, UT, H + "algorithm/dmrg/operator_io.h"], [("tensor files", TV + ": DumpTen, LoadTen"), ("environment files", UT + ": WriteQLTensorTOFile, ReadQLTensorFromFile"), ("operator groups", H + "algorithm/dmrg/operator_io.h: WriteOperatorGroup, ReadOperatorGroup")],
  ["tensors in memory, files, exceptions and return values"],
  technique="exhaustive enumeration of byte-level write and read faults and of dump/load histories on the real code",
  level_note="Every byte position of the chosen files is a fault point; the tensor library, and so the file format, is a stand-in.")
p("G06", "Initial states are exactly the requested product states or superpositions",
  "A product-state initializer yields the requested basis state (up to a sign), normalized and centered at site 0, also on an object used before; the zero-flux form gives every tensor zero flux. The extended random initializer yields a normalized state in the charge sector of the listed basis states with nonzero weight on each of them.",
  ["inputs"], "all basis states, sets of basis states and enlargement factors",
  UNB + "total charge and support over all label choices are not enumerated.",
  [MINI], [("initializers", MINI + ": DirectStateInitMps, DirectStateInitZeroDivMps, ExtendDirectRandomInitMps")], ["state vector, tensor fluxes, center"],
  technique="exhaustive enumeration of initial states on the real code against the state vector (ASan+UBSan)",
  level_note="Chains of 2-5 sites; the tensor library, and so the random numbers, is a stand-in.")
p("G07", "Entanglement entropies are those of the represented state",
  "For every state, however it was produced and whatever its canonical form or norm, the von Neumann and Renyi entropies reported at each bond equal those of the exact Schmidt spectrum, including product states and vanishing singular values, and the query changes nothing but the norm.",
  ["histories"], "all states reachable by operation histories, all bonds and orders",
  UNB + "sampled states have no vanishing singular values and a fresh canonical form.",
  [MPSH, UT], [("entropy", MPSH + ": FiniteMPS::GetEntanglementEntropy")], ["returned entropies, state vector"],
  technique="exhaustive enumeration of histories on the real code, entropies compared with the exact Schmidt spectrum",
  level_note="Chains of 2-4 sites, orders 1-3; the tensor library is a stand-in.")
p("G08", "Generated Hamiltonians have the smallest possible bond dimension",
  "For every graph of two-body couplings of equal strength between up to six sites (Ising and spin exchange between spins 1/2, Hubbard hopping between up to four sites), for every graph of such spin couplings with up to three different strengths between up to four sites, and for every single product of local operators, whatever the order in which the terms are added: each virtual bond of the compressed MPO and of the compressed matrix representation is exactly as wide as the rank of the Hamiltonian across that bond, and the operator is the sum of the terms.",
  ["inputs", "histories"], "all coupling graphs, strengths and orders of addition",
  "Tests fix the bond dimension of a few regular chains; a compression step that is skipped or incomplete changes no operator and shows on irregular graphs only.",
  [GEN, ALG, FSM], [("compression", FSM + ": FSM::GenCompressedMatRepr; " + ALG + ": SparOpReprMatRowCompresser, SparOpReprMatColCompresser")],
  ["bond dimensions of the MPO and of the matrix representation", "operator"],
  technique="exhaustive enumeration of coupling graphs on the real generator against the operator rank",
  level_note="Up to 2^15 graphs of six sites; the tensor library is a stand-in.")

# ------------------------------------------------------------------ ground-state search
VM, DM = H + "algorithm/vmps/", H + "algorithm/dmrg/"
OUTS = ["MPS files on disk", "returned energy", "exceptions", "process exit"]
HT = "explicit-state model checking of run/restart histories on the real code: every history to a depth, files compared with exact diagonalization after every run (ASan+UBSan on a shallower space)"
p("A01", "Two-site variational sweeps leave the optimized state on disk",
  "For every Hamiltonian, start and sequence of two-site runs, with or without noise, whether continued with the environments on disk, restarted without them or with some of them lost: the files left on disk hold a canonical matrix product state with its center where documented, in the charge sector of the start and within the bond limit, and the MPS object is left empty. Every update replaces its block by the lowest state that the block's Krylov space reaches and keeps its largest Schmidt weights: at least the minimum and at most the maximum number of states, and as few as the allowed discarded weight permits. When nothing is truncated the state is normalized, the returned energy is its energy and does not rise from run to run; the energy never lies below the exact ground energy. Any environment file that is lost between two runs is rebuilt or makes no difference (with noise), or its loss is reported (without).",
  ["histories", "inputs"], "all sequences of runs with their parameters, starts and Hamiltonians",
  "These algorithms need the tensor library, so none of the tests that run here execute them; the repository's own tests compare final energies of a few models and never look at the files, restarts or lost environments.",
  [VM + "two_site_update_finite_vmps_impl.h", VM + "two_site_update_noise_finite_vmps_impl.h", VM + "vmps_init.h"],
  [("noiseless sweeps", VM + "two_site_update_finite_vmps_impl.h: TwoSiteFiniteVMPS"), ("noised sweeps", VM + "two_site_update_noise_finite_vmps_impl.h: TwoSiteFiniteVMPSWithNoise"), ("start-up", VM + "vmps_init.h: FiniteVMPSInit, CheckAndUpdateBoundaryMPSTensors, NeedGenerateRightEnvs")],
  OUTS, [("environment files", "which environments a run loads, removes and leaves", VM + "two_site_update_finite_vmps_impl.h: LoadRelatedTens*, DumpRelatedTens*")],
  technique=HT, level_note="Chains of 3-7 sites, up to 3 runs; the tensor library is a stand-in; chains of two sites are outside the algorithm's domain.")
p("A02", "Single-site variational sweeps leave the optimized state on disk",
  "For every Hamiltonian, start and sequence of single-site runs, with or without noise (subspace expansion), continued or restarted: the files left on disk hold a canonical matrix product state centered at site 0, in the charge sector of the start and within the bond limit, and the MPS object is left empty. Every update replaces its block by the lowest state that the block's Krylov space reaches and keeps its largest Schmidt weights: at least the minimum and at most the maximum number of states, and as few as the allowed discarded weight permits. When nothing is truncated the state is normalized, the returned energy is its energy and does not rise from run to run; the energy never lies below the exact ground energy. The loss of an environment file between two runs is reported or makes no difference.",
  ["histories", "inputs"], "all sequences of runs with their parameters, starts and Hamiltonians",
  "No test that runs here executes the algorithm, and the repository's own tests check final energies of a few models only.",
  [VM + "single_site_update_finite_vmps_impl.h"], [("sweeps", VM + "single_site_update_finite_vmps_impl.h: SingleSiteFiniteVMPS"), ("noise", VM + "single_site_update_finite_vmps_impl.h: SingleSiteFiniteVMPSRightMovingExpand, SingleSiteFiniteVMPSLeftMovingExpand")],
  OUTS, [("environment files", "which environments a run loads, removes and leaves", VM + "single_site_update_finite_vmps_impl.h")],
  technique=HT, level_note="Chains of 3-7 sites, up to 3 runs; the tensor library is a stand-in.")
p("A03", "DMRG sweeps on super-block operators leave the optimized state on disk",
  "For every Hamiltonian in matrix representation, start and sequence of DMRG runs, continued with the block operators on disk, restarted without them or with any one of them lost: the files left on disk hold a canonical matrix product state centered at site 0, in the charge sector of the start and within the bond limit, and the MPS object is left empty. Every update replaces its block by the lowest state that the block's Krylov space reaches and keeps its largest Schmidt weights: at least the minimum and at most the maximum number of states, and as few as the allowed discarded weight permits. When nothing is truncated the state is normalized, the returned energy is its energy and does not rise from run to run; the energy never lies below the exact ground energy.",
  ["histories", "inputs"], "all sequences of runs with their parameters, starts and Hamiltonians",
  "No test that runs here executes the algorithm, and the repository's own tests check final energies of a few models only.",
  [DM + "dmrg_impl.h", DM + "dmrg_init.h", DM + "operator_io.h"], [("sweeps", DM + "dmrg_impl.h: DMRGExecutor"), ("start-up", DM + "dmrg_init.h: DMRGInit"), ("block operators", DM + "dmrg_impl.h: block site operations")],
  OUTS, [("block operator files", "which operator groups a run loads, removes and leaves", DM + "dmrg_impl.h")],
  technique=HT, level_note="Chains of 3-7 sites, up to 3 runs; the tensor library is a stand-in.")
p("A05", "The Lanczos solvers return the best vector of the Krylov space they built",
  "For every Hermitian effective Hamiltonian, start vector, tolerance and iteration limit (one included), the returned vector is normalized, the returned energy is its energy, is not below the spectrum, not above the start's energy and is the minimum over the Krylov space of the iterations made; with a tight tolerance and enough iterations it is the lowest energy reachable from the start. The solver makes no more iterations and products than allowed, also when the space is exhausted early, and leaves no tensors behind.",
  ["inputs"], "all effective Hamiltonians, start vectors, tolerances and iteration limits",
  "The repository's tests of the solver use one random matrix and need the tensor library; small and degenerate spaces and low iteration limits are not tried.",
  [VM + "lanczos_vmps_solver_impl.h", DM + "lanczos_dmrg_solver_impl.h"], [("VMPS solver", VM + "lanczos_vmps_solver_impl.h: LanczosSolver"), ("DMRG solver", DM + "lanczos_dmrg_solver_impl.h: LanczosSolver")],
  ["returned vector, energy and iteration count", "number of Hamiltonian products", "live tensors"],
  technique="exhaustive enumeration of small eigenproblems on the real solvers against exact spectra and exact Krylov minima",
  level_note="Dimensions 1-4 and chains of 3-5 sites; the tensor library is a stand-in.")
p("A06", "The Krylov propagator evolves every state exactly when it may converge",
  "For every Hermitian effective Hamiltonian, start vector (of any norm), real time step of either sign, the returned vector is exp(-i H t) applied to the start, norm included, as soon as the iteration limit allows convergence, and an approximation from the Krylov space of the iterations made otherwise. It makes no more iterations than allowed, also with a limit of one or a space that is exhausted early, and leaves no tensors behind.",
  ["inputs"], "all effective Hamiltonians, start vectors, steps, tolerances and iteration limits",
  "The repository's tests evolve a few states and need the tensor library.",
  [H + "algorithm/tdvp/lanczos_expmv_solver_impl.h"], [("propagator", H + "algorithm/tdvp/lanczos_expmv_solver_impl.h: LanczosExpmvSolver")],
  ["returned vector and iteration count", "live tensors"],
  technique="exhaustive enumeration of small evolutions on the real solver against the exact matrix exponential",
  level_note="Dimensions 1-4; the tensor library is a stand-in.")
p("A07", "Stopped and resumed calculations continue where they ended",
  "For every split, running k sweeps and then l more with the files left on disk gives the state and energy of k + l sweeps in one run (two-site and single-site sweeps, and DMRG with converged Lanczos), also when the environments are rebuilt. SIGUSR1 or SIGUSR2 at any moment ends DMRG after the running sweep with exactly the files of a shorter run; SIGINT or SIGTERM at any moment ends it after the current update (between two sweeps: at once or after the next update), leaving on disk a complete, normalized state whose energy is the returned one and that can be used again.",
  ["histories", "crash_points"], "all splits of a run and all moments at which a signal arrives",
  "No test stops or resumes a run; the moment at which the signal arrives decides which files exist.",
  [VM + "two_site_update_finite_vmps_impl.h", VM + "single_site_update_finite_vmps_impl.h", DM + "dmrg_impl.h"], [("resume", VM + "two_site_update_finite_vmps_impl.h: TwoSiteFiniteVMPS; " + DM + "dmrg_init.h: DMRGInit"), ("signals", DM + "dmrg_impl.h: DMRGExecutor::Execute")],
  OUTS + ["number of updates after the signal"],
  technique="exhaustive enumeration of split points and of signal arrival points on the real code (each stopped run in its own process), compared with uninterrupted runs",
  level_note="Chains of 3-7 sites; signals arrive between tensor operations, file accesses and console lines; the tensor library is a stand-in.")
p("A08", "With room for the exact state, the sweeps find the ground state of the sector",
  "For every Hamiltonian and every start that overlaps the sector generically (or any product start that is not an excited eigenstate, for algorithms that can enlarge the bonds), a few sweeps with a bond limit above the exact bond dimension reach the exact ground energy of the start's charge sector, with each of the two-site, noised two-site, single-site, noised single-site and DMRG algorithms.",
  ["inputs"], "all couplings of small chains, all starts and algorithms",
  "The repository's tests need the tensor library and use uniform couplings, where a wrong or lost coupling, sign or environment on one bond is easily hidden.",
  [VM + "two_site_update_finite_vmps_impl.h", VM + "single_site_update_finite_vmps_impl.h", DM + "dmrg_impl.h"], [("effective Hamiltonians", H + "algorithm/vmps/two_site_update_finite_vmps_impl.h: environments; " + DM + "dmrg_impl.h: super-block terms")],
  ["returned energy"], technique="exhaustive enumeration of Hamiltonians, starts and algorithms on the real code against exact diagonalization",
  level_note="Chains of 3-6 sites; the tensor library is a stand-in.")
MM = H + "one_dim_tn/mps/finite_mps/"
p("G05", "Expectation values and correlations are those of the represented state",
  "For every state in any canonical form and of any norm the documented use allows, every measurement function (one-site, two-site, multi-site, group and four-site queries, in memory or from disk, with or without string operators) returns for each requested set of sites the expectation value of the represented state, labelled with the right sites and in the documented order, independent of what was measured before; the state and its files keep representing the same vector, no tensor stays behind in memory, and the result files list exactly the returned values.",
  ["inputs", "histories"], "all queries on small chains, all forms of the state, all pairs of queries",
  UNB + "the repository's tests of measurements use a few operators on one ground state, compare with loose tolerances and never repeat or mix queries.",
  [MM + "finite_mps_measu_memory.h", MM + "finite_mps_measu_disk.h"], [("in memory", MM + "finite_mps_measu_memory.h: MeasureOneSiteOp, MeasureTwoSiteOp, MeasureMultiSiteOp"), ("from disk", MM + "finite_mps_measu_disk.h: MeasureTwoSiteOp, MeasureTwoSiteOpGroup, MeasureFourSiteOpGroup"), ("files", MM + "finite_mps_measu_memory.h: DumpMeasuRes, DumpAvgVec")],
  ["returned sites and values", "result files", "state vector after the query", "live tensors"],
  technique="exhaustive enumeration of queries, states and query histories on the real code against the state vector",
  level_note="Chains of 2-5 sites; the tensor library is a stand-in (ASan+UBSan on a subset).")
TD = H + "algorithm/tdvp/"
p("A04", "Two-site TDVP evolves the kicked state and reports its dynamic correlations",
  "For every Hamiltonian, start, kick operator and site, string operators, time step of either sign, number of steps and truncation: when nothing is truncated the state left on disk after n steps is the kicked state evolved by the documented sequence of local evolutions, has its norm and energy, stays in its charge sector, and the reported correlations are those of the evolved and the initial state with the phase of the reference energy, labelled with the right sites and times; with truncation every bond keeps the largest Schmidt weights that the truncation parameters ask for, at each local evolution, and the norm never grows. The result file lists the returned values, the initial state is kept unchanged in its own directory, nothing that an earlier evolution left in the directories for temporary files matters, and no tensor stays in memory.",
  ["inputs"], "all Hamiltonians, starts, kicks, steps, truncations",
  "These algorithms need the tensor library; the repository's test evolves one model with one kick.",
  [TD + "two_site_update_finite_tdvp_impl.h", TD + "tdvp_evolve_params.h", TD + "lanczos_expmv_solver_impl.h"], [("evolution", TD + "two_site_update_finite_tdvp_impl.h: TwoSiteFiniteTDVP, TwoSiteFiniteTDVPSweep"), ("kick and correlation", TD + "two_site_update_finite_tdvp_impl.h: ActOperatorOnMps, CalPsi1OpPsi2")],
  ["MPS files", "returned correlations", "result file", "live tensors"],
  technique="exhaustive enumeration of evolutions on the real code against exact time evolution",
  level_note="Chains of 3-5 sites; the tensor library is a stand-in (ASan+UBSan on a subset).")
AM = H + "algo_mpi/"
SCH = "stateless model checking of the real master and worker code: every order of message reception within the bounds under a controlled scheduler, each run compared with the serial algorithm"
MW = "The MPI tests cannot run here and, run elsewhere, see whatever order the machine happens to produce."
p("M01", "Distributed two-site sweeps end and equal the serial ones under every message order",
  "For every number of processes (one and more workers than tasks included) and every order in which the master may receive the workers' results, with buffering or synchronous message passing, the distributed two-site sweeps end on every rank, every message is received with the type it was sent with and all ranks agree on the collective calls; the files left on disk hold the state and the returned energy is the one that the serial algorithm gives, or, when the distributed start-up legitimately takes another path, the same for every order and number of processes, every update keeping the largest Schmidt weights that the truncation parameters ask for. This also holds for runs that continue an earlier distributed one, with any of its environment files missing. Workers return zero and no tensor stays in memory.",
  ["schedules", "inputs"], "all orders of message reception, numbers of ranks, sending modes", MW,
  [AM + "vmps/two_site_update_finite_vmps_mpi_impl_master.h", AM + "vmps/two_site_update_finite_vmps_mpi_impl_slave.h", AM + "vmps/lanczos_solver_mpi_master.h", AM + "vmps/lanczos_solver_mpi_slave.h", AM + "env_ten_update_master.h", AM + "env_ten_update_slave.h", AM + "vmps/vmps_mpi_init_master.h"],
  [("task distribution", AM + "vmps/lanczos_solver_mpi_master.h: master_two_site_eff_ham_mul_state"), ("environments", AM + "env_ten_update_master.h: MasterGrowLeftEnvironment, MasterGrowRightEnvironment"), ("orders", AM + "mps_algo_order.h")],
  ["termination of every rank", "MPS files", "returned energies", "live tensors"], [("master/worker protocol", "which order each worker serves and which tasks are still out", AM + "vmps/")],
  technique=SCH, level_note="1-6 ranks, 3-6 sites; message passing and tensors are stand-ins; deviation- or window-bounded schedules.")
p("M02", "Distributed time evolution ends and equals the serial one under every message order",
  "For every number of processes (one included) and every order in which the master may receive the workers' results, with buffering or synchronous message passing, the distributed two-site TDVP ends on every rank with every message received and all collective calls matching; the state left on disk is, up to its norm, the one that the serial algorithm leaves, truncation included, the correlations agree, whatever an earlier evolution left in the directories for temporary files, and no tensor stays in memory.",
  ["schedules", "inputs"], "all orders of message reception, numbers of ranks, sending modes", MW,
  [AM + "tdvp/two_site_update_finite_tdvp_mpi_impl_master.h", AM + "tdvp/two_site_update_finite_tdvp_mpi_impl_slave.h", AM + "tdvp/lanczos_expmv_solver_mpi.h", AM + "env_ten_update_master.h", AM + "env_ten_update_slave.h"],
  [("evolution", AM + "tdvp/two_site_update_finite_tdvp_mpi_impl_master.h: MasterTwoSiteFiniteTDVP"), ("propagator", AM + "tdvp/lanczos_expmv_solver_mpi.h")],
  ["termination of every rank", "MPS files", "returned correlations", "live tensors"], [("master/worker protocol", "which order each worker serves and which tasks are still out", AM + "tdvp/")],
  technique=SCH, level_note="1-6 ranks, 3-6 sites; message passing and tensors are stand-ins; deviation- or window-bounded schedules.")
p("M03", "Distributed DMRG ends and equals the serial one under every message order",
  "For every number of processes (one and more workers than tasks included) and every order in which the master may receive the workers' results, with buffering or synchronous message passing, distributed DMRG ends on every rank with every message received and all collective calls matching; the state on disk and the energy are those of the serial algorithm (or, where truncation makes the start-up differ, the same for every order and number of processes), every update keeping the largest Schmidt weights that the truncation parameters ask for, also when it continues an earlier run with any of its block-operator files missing; workers return zero and no tensor stays in memory.",
  ["schedules", "inputs"], "all orders of message reception, numbers of ranks, sending modes", MW,
  [AM + "dmrg/dmrg_mpi_impl_master.h", AM + "dmrg/dmrg_mpi_impl_slave.h", AM + "dmrg/lanczos_dmrg_solver_mpi_master.h", AM + "dmrg/dmrg_mpi.h"],
  [("task distribution", AM + "dmrg/lanczos_dmrg_solver_mpi_master.h, dmrg_mpi_impl_slave.h: DMRGMPISlaveExecutor"), ("block operators", AM + "dmrg/dmrg_mpi_impl_master.h: DMRGMPIMasterExecutor")],
  ["termination of every rank", "MPS files", "returned energies", "live tensors"], [("master/worker protocol", "which order each worker serves and which tasks are still out", AM + "dmrg/")],
  technique=SCH, level_note="1-6 ranks, 3-6 sites; message passing and tensors are stand-ins; deviation- or window-bounded schedules.")
p("M04", "Distributed noised sweeps end and equal the serial ones under every message order and thread interleaving",
  "For every number of processes, every order in which the master may receive the workers' results and every interleaving of the master's background loading and dumping threads with the calculation, the distributed noised two-site sweeps end on every rank without lost messages, unjoined threads or missing files, and leave on disk the state, and return the energy, that the serial noised algorithm gives, truncated to the largest Schmidt weights that the parameters ask for, also when they continue an earlier run with any of its environment files missing; no tensor stays in memory.",
  ["schedules", "inputs"], "all orders of message reception and interleavings of the file threads", MW + " The interleaving of the file threads with the calculation decides which files exist when they are read.",
  [AM + "vmps/two_site_update_noised_finite_vmps_mpi_impl.h", AM + "vmps/two_site_update_finite_vmps_mpi_impl_slave.h"],
  [("expansion", AM + "vmps/two_site_update_noised_finite_vmps_mpi_impl.h: Master/SlaveTwoSiteFiniteVMPSRightMovingExpand, ...LeftMovingExpand"), ("file threads", AM + "vmps/two_site_update_noised_finite_vmps_mpi_impl.h: TwoSiteFiniteVMPSSweep")],
  ["termination of every rank and thread", "MPS files", "returned energies", "live tensors"], [("file threads", "which tensors are in memory and which files exist at each moment", AM + "vmps/two_site_update_noised_finite_vmps_mpi_impl.h")],
  technique=SCH + "; the file threads are scheduled by the same explorer", level_note="1-4 ranks, 3-5 sites; message passing and tensors are stand-ins; deviation- or window-bounded schedules.")

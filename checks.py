"""Registry: property -> explorers (harness source, mode, build flags, bounds)."""
REL = ["-O2", "-DNDEBUG"]                      # the configuration the repository ships its tests in
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
TIM = ["-DQLMPS_TIMING_MODE", "-DQLMPS_MPI_TIMING_MODE"]                     # the switches that print timings; the sanitized builds also have assertions on

CHECKS = {}


def prop(pid, explorers, nontrivial, quick, thorough, assumptions=(), level="model_checking"):
    CHECKS[pid] = dict(level=level, explorers=explorers, nontrivial=nontrivial,
                       assumptions=list(assumptions), bounds={"quick": quick, "thorough": thorough})


def ex(src, mode="", flags=REL, libs=(), **kw):
    d = dict(src=src, mode=mode, flags=list(flags), libs=list(libs))
    d.update(kw)
    return d


# ---------------------------------------------------------------- symbolic MPO generation
prop("F01", [ex("fsm_mc.cc", "expand")],
     "a history of term additions; every history differs from all others",
     "1 to 5 sites, alphabets of up to 63 terms (all head/tail positions, 2-3 operators, 1-3 coefficients), all sequences up to length 4 and all subsets of 15-18 term families",
     "as quick plus sequences up to length 4 over larger alphabets and all subsets of 20-24 term families",
     ["the coefficient of a term sits on its first operator, as the Hamiltonian generator places it",
      "symbolic coefficients are told apart by a positional (Kronecker) evaluation modulo 2^128"])
prop("F02", [ex("fsm_mc.cc", "compress"), ex("alg_mc.cc", "mat")],
     "a history of term additions, or a (matrix, neighbour) pair, that is compressed",
     "the histories of F01; all 2x2, 2x3, 3x2, 1x3, 1x4 operator matrices over 6-9 entries next to fixed followers, columns and rows",
     "the histories of F01 (thorough); 8 entries for the 6-cell matrices and three followers each",
     ["coefficients sit on the first operator of a term (the documented domain of the compression)"])
prop("F03", [ex("spar_mc.cc", "coef", SAN), ex("spar_mc.cc", "op", SAN), ex("spar_mc.cc", "state", SAN)],
     "an operation history on a matrix; the last operation is compared with the dense model",
     "all histories up to length 5 (1x1), 4 (1x2, 2x1, 2x2), 3 (2x3, 3x2, 3x3, 2x4, 4x2) from the empty matrix; every operation from every reachable dense state of 2x2 (4 values), 2x3, 3x2 (3 values), 3x3 (2 values)",
     "histories one or two steps longer; reachable dense states of 3x3 with 3 values")
prop("F04", [ex("alg_mc.cc", "coef", SAN), ex("alg_mc.cc", "op", SAN)],
     "a tuple of coefficients or operators",
     "85 coefficients (lists of up to 3 of 4 labels) with all pairs, 13^3 triples; 343 operators over 3 basis labels, 125^2 pairs, 16^3 triples, all label lists up to length 4",
     "same as quick (the space is exhausted)")
prop("F05", [ex("alg_mc.cc", "label")],
     "a history of label requests", "all request histories up to length 6 over 5 objects, empty and seeded tables", "length 7")
prop("F06", [ex("ifsm_mc.cc")],
     "an ordered list of distinct terms added to a unit cell",
     "unit cells of 1-4 sites, terms of length 2-6, all ordered selections of up to 3 terms, windows of (longest term + cell - 1) sites at every offset",
     "up to 4 terms",
     ["terms added to one cell are pairwise different (adding the same term twice ends the program with a message)"])

# ---------------------------------------------------------------- containers and utilities
prop("C01", [ex("duo_mc.cc", "bfs", SAN), ex("duo_mc.cc", "seq", SAN)],
     "an operation history on a pool of vectors",
     "every operation from every reachable state of pools 1x3, 2x2, 3x1 (vectors x slots); all sequences up to length 5 on 2 vectors, 7 on 1",
     "adds pool 2x3 and sequences up to length 6 / 8")
prop("C02", [ex("parser_mc.cc", "values"), ex("parser_mc.cc", "history"), ex("parser_mc.cc", "files")],
     "a (value, accessor) pair, an accessor history, or a file shape",
     "33 scalars, all their pairs and 1/3 of selected triples as arrays, objects, nested arrays x 8 types x 3 accessors; all accessor histories up to length 3; 19 file shapes and every truncation of one file",
     "all selected triples; accessor histories up to length 4")
prop("C03", [ex("mem_mc.cc", "memory")],
     "one combination of system answers", "all combinations of 8 sizes (total, free, buffers), 5 units, success/failure, unrelated counters",
     "same as quick", ["the system query is replaced by a stub in the explorer's process"])
prop("C04", [ex("mem_mc.cc", "params")],
     "one parameter combination", "9 tolerances x 8 iteration limits through every constructor, copy and assignment", "same as quick")

# ---------------------------------------------------------------- tensor networks (on the tensor-library stand-in)
SHIM = ("TensorToolkit is not installed here: the real headers run on a stand-in (shim/) that implements its documented "
        "interface densely and rejects illegal contractions, charges and directions")
EIG = ["-I/usr/include/eigen3"]


def tx(src, mode="", flags=("-O2", "-DNDEBUG"), **kw):
    return ex(src, mode, list(flags) + EIG, shim=True, **kw)


prop("G01", [tx("gen_mc.cc"), tx("gen_mc.cc", "terms", SAN)],
     "a sequence of term additions, generated compressed, uncompressed and as matrix representation",
     "2-5 sites of spin, mixed, Hubbard and symmetry-free sites, pools of 8-40 terms through every AddTerm form, all sequences up to length 2-5; every single term on 2-4 sites over all site orders, operators, insertions and overloads, pairs on 2 sites (ASan+UBSan, assertions on)",
     "one step longer", [SHIM, "at least one term with a nonzero coefficient"])
prop("G08", [tx("gen_mc.cc", "rank")],
     "one coupling graph with one order of additions (or one term), each bond compared with the rank of the operator",
     "all graphs: Ising 4 sites 3 strengths, 5-6 sites; spin exchange 3 sites 3 strengths, 4 sites 3 strengths, 5 sites; every single product on 3-4 sites; Hubbard hopping 2-3 sites; each in two orders",
     "also spin exchange on 6 sites and Hubbard hopping on 4", [SHIM])
prop("S01", [tx("ops_mc.cc", "ops", SAN)],
     "one operator or local state of one site type, compared with the Fock-space matrix",
     "every site type, symmetry (none, U1, U1xU1), element type, original and copied operator sets outliving their source (ASan+UBSan)",
     "same as quick (the space is exhausted)", [SHIM])
prop("S02", [tx("ops_mc.cc", "couple")],
     "a sequence of coupling calls, generated and compared with the summed operator",
     "2-4 sites of spin, t-J and Hubbard chains, all site pairs in both orders, several amplitudes (complex included), sequences up to length 2",
     "sequences up to length 3", [SHIM])
prop("G02", [tx("mpo_mc.cc", "hist"), tx("mpo_mc.cc", "histsan", SAN), tx("mpo_mc.cc", "vprod"), tx("mpo_mc.cc", "exp")],
     "an operation history on a pair of operators (dense operators and every record compared after each step), one compressed product, or one thermal operator",
     "about 20 operations on chains of 2-4 sites (U1, no symmetry, mixed sites, real and complex), all histories up to length 4 (2 sites) or 3, one step less under ASan+UBSan; products of every operator pair with every guess, guess center, bond limit 1/2/3/100 and 0-4 sweeps; exp(-tau H) for 4 times, 5 orders, 3 tolerances",
     "histories one step longer, Hubbard chains and 5 sites", [SHIM])
prop("G03", [tx("mps_mc.cc", "hist"), tx("mps_mc.cc", "histsan", SAN)],
     "an operation history on a pair of states, the state vector and every record compared after each step",
     "33 operations on chains of 2-4 sites (U1, no symmetry, mixed sites, real and complex), all histories up to length 5 (2 sites), 4 (3 sites), 3 (others); one step less under ASan+UBSan",
     "one step longer", [SHIM])
prop("G04", [tx("io_mc.cc", "faults"), tx("io_mc.cc", "hist")],
     "one fault point (byte budget of a write, length of a file, missing file) or one dump/load history",
     "every byte budget and every truncation length of every tensor, state, operator, center and operator-group file; all histories up to length 4 of 14 operations over two directories",
     "adds Hubbard tensors and histories up to length 5",
     [SHIM, "a full disk is produced with a file size limit on the explorer's process"])
prop("G06", [tx("mps_mc.cc", "init", SAN)],
     "one initial state", "all product states (fresh and reused objects) and all unions of up to three product states of equal charge with 1-3 copies, on 2-5 sites of spin, mixed, t-J and Hubbard chains",
     "same as quick (the space is exhausted)", [SHIM])
prop("G07", [tx("mps_mc.cc", "entropy")],
     "an operation history that ends in an entropy query at every bond",
     "orders 1, 2, 3 after all histories up to length 3 (4 on 2 sites), each followed by further operations", "one step longer", [SHIM])

# ---------------------------------------------------------------- ground-state search
HIST = ("9 systems (spin-1/2 chains of 3-7 sites, real and complex, with and without symmetry, a mixed-spin chain, Hubbard chains of 3-4 sites), 1-4 starts each; 5 parameter sets x 4 kinds of run "
        "(fresh, continued, environments removed, one environment file lost); all histories up to length 3 on 3-5 sites, 2 on larger ones; length 2 (1) under ASan+UBSan with assertions and the timing switches on; single runs of 1-2 sweeps with bond limits 1-6 and 64, minimum dimensions 1-3 and 7 truncation weights compared with exact local updates")
HISTT = "one run longer, references of up to 4 sweeps, 8-site spin and complex Hubbard chains"
PRE = ["the files hold a normalized state centered as the algorithm documents; kept environments belong to the same algorithm", SHIM]
prop("A01", [tx("sweep_mc.cc", "two", ["-O1", "-DNDEBUG", "-DONLY_TWO"]), tx("sweep_mc.cc", "twosan", SAN + TIM + ["-DONLY_TWO"]), tx("sweep_mc.cc", "ref", ["-O1", "-DNDEBUG", "-DONLY_TWO"])],
     "a history of two-site runs (with and without noise); files compared with exact diagonalization after every run", HIST, HISTT, PRE)
prop("A02", [tx("sweep_mc.cc", "single", ["-O1", "-DNDEBUG", "-DONLY_SINGLE"]), tx("sweep_mc.cc", "singlesan", SAN + TIM + ["-DONLY_SINGLE"]), tx("sweep_mc.cc", "ref", ["-O1", "-DNDEBUG", "-DONLY_SINGLE"])],
     "a history of single-site runs (with and without noise); files compared with exact diagonalization after every run", HIST, HISTT, PRE)
prop("A03", [tx("sweep_mc.cc", "dmrg", ["-O1", "-DNDEBUG", "-DONLY_DMRG"]), tx("sweep_mc.cc", "dmrgsan", SAN + TIM + ["-DONLY_DMRG"]), tx("sweep_mc.cc", "ref", ["-O1", "-DNDEBUG", "-DONLY_DMRG"])],
     "a history of DMRG runs; files compared with exact diagonalization after every run", HIST, HISTT, PRE)
prop("A05", [tx("lanczos_mc.cc", "vmps"), tx("lanczos_mc.cc", "dmrg")],
     "one eigenproblem (effective Hamiltonian, start vector, tolerance, iteration limit)",
     "all Hermitian matrices with entries from a small set in dimensions 1-4, all start vectors of a grid, iteration limits 1-100, several tolerances; effective Hamiltonians of 3-5 site chains for the DMRG solver",
     "denser sets of entries", [SHIM])
prop("A06", [tx("lanczos_mc.cc", "expmv")],
     "one evolution (effective Hamiltonian, start vector, step, tolerance, iteration limit)",
     "the matrices and start vectors of A05, real and imaginary steps of both signs, several tolerances and iteration limits", "denser sets of entries", [SHIM])
prop("A07", [tx("sweep_mc.cc", "resume"), tx("sweep_mc.cc", "stop")],
     "a split of a calculation into two runs, or a signal at one step of a run",
     "all splits k + l <= 4 of two-site, single-site and DMRG sweeps, bond limits 2 and 64, converged and short Lanczos runs, environments kept or rebuilt; SIGINT and SIGUSR1 at every step (console line, contraction, decomposition, file access) of 2 DMRG sweeps on 9 systems and every start, and at the steps next to every update with bond limit 2 or 3 sweeps; SIGTERM and SIGUSR2 once per update",
     "every step for all settings and larger chains", PRE)
prop("A08", [tx("sweep_mc.cc", "conv")],
     "one Hamiltonian, start, algorithm and number of sweeps",
     "all XXZ chains with couplings from 3 values on 3 and 4 sites, the 9 systems of A01, generic and product starts, 4 and 8 sweeps, all five algorithms", "all 6561 XXZ chains of 5 sites",
     PRE + ["bond limit above the exact bond dimension; starts that are excited eigenstates are excluded, single-site sweeps start from generic states"])

# ---------------------------------------------------------------- measurements, time evolution
O1 = ["-O1", "-DNDEBUG"]
prop("G05", [tx("measu_mc.cc", "memory", O1), tx("measu_mc.cc", "disk", O1), tx("measu_mc.cc", "four", O1), tx("measu_mc.cc", "memsan", SAN), tx("measu_mc.cc", "disksan", SAN)],
     "one query (operators, sites, string operators, form of the state), alone or after another query",
     "every query function, all ordered site lists and operator choices on chains of 2-5 sites (spin, mixed, Hubbard, symmetry-free), states in every canonical form and norm, in memory and on disk; all pairs of queries on small chains; written result files parsed and compared; subsets under ASan+UBSan",
     "longer chains and larger operator pools",
     [SHIM, "operators of one query are of the shape the function documents; the disk variants start from a state centered at site 0"])
prop("A04", [tx("tdvp_mc.cc", "tdvp", O1), tx("tdvp_mc.cc", "tdvpsan", SAN + TIM), tx("tdvp_mc.cc", "tdvpref", O1)],
     "one evolution (Hamiltonian, start, start center, kick, step, number of steps, truncation); files and correlations compared with the exact evolution",
     "chains of 3-5 sites (spin with and without symmetry, Hubbard), all kick sites, operator pairs with and without strings, start centers up to the kick, 3 steps of both signs, 0-3 steps, 3 truncations; a subset under ASan+UBSan; every local update done exactly for 7 bond limits, 4 minimum dimensions and 7 truncation weights",
     "longer chains and more steps",
     [SHIM, "a fresh directory for the initial state, at least three sites, a kick that does not annihilate the state, the local-operator mode (the other one is unfinished)"])

# ---------------------------------------------------------------- distributed algorithms
MP = [SHIM, "the ranks run as fibers of one process over a message-passing stand-in: messages of one sender to one receiver do not overtake each other, sends are buffered or synchronous; the distributed decomposition is one collective call",
      "each rank runs until it blocks before a wildcard receive is matched, so every sender that can match is a candidate; schedules are bounded by the number of deviations from four base policies (lowest rank, highest rank, rotating, latest message), or by a window of consecutive choices that are free"]
prop("M01", [tx("mpi_mc.cc", "vmps", O1 + ["-DALGO_VMPS"]), tx("mpi_mc.cc", "vmpssan", SAN + TIM + ["-DALGO_VMPS"]), tx("mpi_mc.cc", "ref", O1 + ["-DALGO_VMPS"])],
     "one schedule (order in which the master receives results) of one run",
     "1-5 ranks, 7 systems of 3-6 sites (spin 1/2, spin 1, Hubbard, complex, symmetry-free), buffered and synchronous sends, 4 base policies, up to 2 deviations or all orders in windows of 4-6 choices; single schedules of 1-2 sweeps with 7 bond limits, minimum dimensions 1-3 and 7 truncation weights compared with exact local updates",
     "6 ranks, larger systems, windows of 6", MP)
prop("M02", [tx("mpi_mc.cc", "tdvp", O1 + ["-DALGO_TDVP"]), tx("mpi_mc.cc", "tdvpsan", SAN + TIM + ["-DALGO_TDVP"]), tx("mpi_mc.cc", "ref", O1 + ["-DALGO_TDVP"])],
     "one schedule of one time evolution", "1-4 ranks, 5 systems of 3-5 sites, buffered and synchronous sends, 4 base policies, up to 2 deviations or windows of 4-6 choices; single schedules of 1-2 sweeps with 7 bond limits, minimum dimensions 1-3 and 7 truncation weights compared with exact local updates", "6 ranks, 6 sites, windows of 4", MP)
prop("M03", [tx("mpi_mc.cc", "dmrg", O1 + ["-DALGO_DMRG"]), tx("mpi_mc.cc", "dmrgsan", SAN + TIM + ["-DALGO_DMRG"]), tx("mpi_mc.cc", "ref", O1 + ["-DALGO_DMRG"])],
     "one schedule of one DMRG run", "1-5 ranks, 7 systems of 3-6 sites, buffered and synchronous sends, 4 base policies, up to 2 deviations or windows of 3-4 choices; single schedules of 1-2 sweeps with 7 bond limits, minimum dimensions 1-3 and 7 truncation weights compared with exact local updates", "6 ranks, larger systems, 2 deviations, windows of 6", MP)
prop("M04", [tx("mpi_mc.cc", "noise", O1 + ["-DALGO_NOISE"]), tx("mpi_mc.cc", "noisesan", SAN + TIM + ["-DALGO_NOISE"]), tx("mpi_mc.cc", "ref", O1 + ["-DALGO_NOISE"])],
     "one schedule of messages and background file threads of one run",
     "1-4 ranks, 6 systems of 3-5 sites, 3 noise plans; threads switch at every message call, tensor read, tensor write, start and join, base policies as early and as late as possible, one deviation (two, or windows of 4, on the smallest system); single schedules of 1-2 sweeps with 7 bond limits, minimum dimensions 1-3 and 7 truncation weights compared with exact local updates",
     "two deviations on more systems",
     MP + ["the background threads of the master are fibers too; switches happen at calls, not inside memory accesses"])

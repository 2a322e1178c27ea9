"""Which harness decides which property, with how many cases, ranks and threads."""
SYSTEM = ["Sylinder/SylinderSystem.cpp", "Sylinder/SylinderConfig.cpp", "Sylinder/Sylinder.cpp", "Trilinos/TpetraUtil.cpp",
          "Boundary/Boundary.cpp", "Constraint/BCQPSolver.cpp", "Constraint/ConstraintCollector.cpp",
          "Constraint/ConstraintOperator.cpp", "Constraint/ConstraintSolver.cpp", "Util/Base64.cpp"]
HARNESSES = {
    "geom": dict(name="geom", kind="plain", main="geom.cpp", sources=["Util/Base64.cpp"], sanopt="-O0"),
    "near": dict(name="near", kind="trilinos", main="near.cpp", sources=["Sylinder/Sylinder.cpp", "Util/Base64.cpp"]),
    "solvers": dict(name="solvers", kind="trilinos", main="solvers.cpp",
                    sources=["Constraint/BCQPSolver.cpp", "Collision/CPSolver.cpp", "Trilinos/TpetraUtil.cpp"]),
    "constraint": dict(name="constraint", kind="trilinos", main="constraint.cpp",
                       sources=["Constraint/BCQPSolver.cpp", "Constraint/ConstraintCollector.cpp", "Constraint/ConstraintOperator.cpp",
                                "Constraint/ConstraintSolver.cpp", "Trilinos/TpetraUtil.cpp", "Util/Base64.cpp"]),
    "system": dict(name="system", kind="system", main="system.cpp", sources=SYSTEM),
    "step": dict(name="step", kind="system", main="step.cpp", sources=SYSTEM),
    "history": dict(name="history", kind="system", main="history.cpp", sources=SYSTEM),
    "sysio": dict(name="sysio", kind="system", main="sysio.cpp", sources=SYSTEM),
    "crash": dict(name="crash", kind="system", main="crash.cpp", sources=SYSTEM),
    "program": dict(name="program", kind="plain", main="program.cpp", needs=("PBT_PROGRAM", dict(name="sylinder", kind="system", main="killer.cpp",
                                                                              sources=SYSTEM + ["Sylinder/SylinderSystem_main.cpp"]))),
    "comm": dict(name="comm", kind="system", main="comm.cpp", sources=["Trilinos/TpetraUtil.cpp", "Util/PointDistribution.cpp"]),
    "config": dict(name="config", kind="plain", main="config.cpp", sources=["Boundary/Boundary.cpp", "Sylinder/SylinderConfig.cpp"]),
}


def R(harness, facet, quick, thorough, qt=30, tt=300, np=0, omp=1, **kw):
    d = dict(harness=harness, facet=facet, np=np, omp=omp, quick=dict(cases=quick, time=qt),
             thorough=dict(cases=thorough, time=tt))
    d.update(kw)
    return d


def C(technique, note, *runs):
    return dict(technique=technique, note=note, runs=list(runs))


CHECKS = {
    "C01": C("property-based testing against a long double brute-force minimiser",
             "random and degenerate segment pairs; trusts the long double reference in harness/gen_geom.hpp",
             R("geom", "segseg", 200000, 20000000), R("geom", "pointseg", 100000, 10000000)),
    "C02": C("property-based testing against long double reference surfaces",
             "walls, tubes and shells of many sizes, built by constructor and from YAML; queries on both sides and at the singular set",
             R("config", "boundaryproj", 100000, 5000000)),
    "C03": C("property-based testing of contact constraints against long double geometry and rigid-body virials",
             "small clouds of rods and spheres at all scales, overlaps and near misses",
             R("near", "pairblock", 60000, 5000000), R("near", "searchradius", 20000, 1000000)),
    "C06": C("property-based testing of constraint assembly against long double sums over the constraints",
             "up to 12 particles and 40 constraints in random queues on 1 to 4 ranks and 1 to 3 threads",
             R("constraint", "assemble", 3000, 300000, np=1, omp=1), R("constraint", "assemble", 1500, 100000, np=2, omp=2),
             R("constraint", "assemble", 1500, 100000, np=4, omp=1), R("constraint", "assemble", 700, 50000, np=3, omp=3)),
    "C07": C("property-based testing of the constraint solution: complementarity and force balance recomputed in long double",
             "up to 8 particles and 20 constraints, both solvers, 1 to 4 ranks; convergence judged on batches",
             R("constraint", "solve", 2000, 200000, np=1, omp=1, hang=30), R("constraint", "solve", 700, 50000, np=3, omp=1, hang=30),
             R("constraint", "solve", 250, 30000, np=2, omp=2, hang=30),
             R("constraint", "solveconverge", 60, 5000, np=1, hang=30),
             R("constraint", "solvefew", 12000, 300000, np=1, hang=30), R("constraint", "solvefew", 2000, 50000, np=3, hang=30)),
    "C08": C("property-based testing on quadratic problems built around a known solution",
             "problems up to 24 unknowns, condition numbers up to 1e5, 1 to 4 ranks; the reported residual is recomputed in long double",
             R("solvers", "bcqp", 30000, 2000000, np=1, hang=20), R("solvers", "bcqp", 5000, 300000, np=3, hang=20), R("solvers", "bcqp", 2000, 100000, np=2, omp=3, hang=20),
             R("solvers", "bcqpconverge", 300, 30000, np=1, hang=20)),
    "C09": C("property-based testing on complementarity problems built around a known solution",
             "problems up to 24 unknowns, condition numbers up to 1e4, 1 to 4 ranks; complementarity recomputed in long double",
             R("solvers", "lcp", 8000, 500000, np=1, hang=20), R("solvers", "lcp", 1500, 100000, np=3, hang=20), R("solvers", "lcp", 700, 40000, np=2, omp=3, hang=20),
             R("solvers", "lcpconverge", 100, 5000, np=1, hang=20)),
    "C04": C("property-based testing of collision collection against an all-pairs search",
             "up to 24 particles, three rounds of motion and insertion, and up to 900 particles in deep trees; 1 to 7 ranks and 1 to 3 threads",
             R("system", "pairs", 3000, 300000, np=1, omp=1), R("system", "pairs", 2000, 100000, np=3, omp=1),
             R("system", "pairs", 1000, 50000, np=2, omp=3), R("system", "pairs", 1500, 100000, np=4, omp=1),
             R("system", "pairsbulk", 60, 5000, np=1, omp=3), R("system", "pairsbulk", 60, 5000, np=4, omp=2), R("system", "pairsbulk", 60, 5000, np=7, omp=1), R("system", "pairs", 500, 50000, np=6, omp=1)),
    "C05": C("property-based testing of boundary constraints against signed clearances in long double",
             "up to 10 particles and three boundaries on either side, 1 to 3 ranks",
             R("system", "boundary", 6000, 300000, np=1, omp=2), R("system", "boundary", 2000, 100000, np=3, omp=1)),
    "C10": C("property-based testing of the mobility operator against the drag formulas in long double",
             "up to 16 particles, viscosities over six decades, 1 to 3 ranks",
             R("system", "mobility", 6000, 200000, np=1, omp=2), R("system", "mobility", 2000, 100000, np=3, omp=1)),
    "C12": C("property-based testing of whole steps: every velocity and force contribution recomputed in long double",
             "up to 12 particles, up to three steps, random external data, links, walls, temperature, monolayers; 1 to 3 ranks",
             R("step", "step", 3000, 200000, np=1, omp=1, hang=30), R("step", "step", 1200, 80000, np=3, omp=1, hang=30), R("step", "step", 800, 50000, np=2, omp=3, hang=30)),
    "C13": C("property-based testing of separation after steps reported as converged, against long double geometry",
             "up to 14 particles and one boundary, contacts down to zero overlap, up to three steps; convergence judged on batches",
             R("step", "separate", 2500, 200000, np=1, omp=1, hang=30), R("step", "separate", 1000, 80000, np=3, omp=1, hang=30), R("step", "separate", 200, 20000, np=1, omp=2, hang=30),
             R("step", "separateconverge", 40, 3000, np=1, hang=60)),
    "C14": C("model-based property testing: random action histories against a model of the particle set",
             "up to 20 particles plus insertions, up to eight actions, some runs past the 50-step decomposition; 1 to 7 ranks",
             R("history", "conserve", 2000, 200000, np=1, omp=2, hang=30), R("history", "conserve", 1500, 100000, np=3, omp=1, hang=30),
             R("history", "conserve", 1000, 60000, np=4, omp=1, hang=30), R("history", "conserve", 500, 50000, np=2, omp=3, hang=30), R("history", "conserve", 300, 30000, np=7, omp=1, hang=30)),
    "C19": C("model-based property testing: insertion histories against a model of identities and links",
             "up to four rounds of up to six new rods per rank and random links; 1 to 4 ranks",
             R("history", "insertion", 1500, 100000, np=1, omp=1, hang=30), R("history", "insertion", 1500, 100000, np=3, omp=1, hang=30),
             R("history", "insertion", 700, 50000, np=4, omp=1, hang=30), R("history", "insertion", 200, 30000, np=7, omp=1, hang=30)),
    "C21": C("property-based testing of reported diagnostics against long double sums over all particles and constraints",
             "up to 16 particles anywhere in space; 1 to 4 ranks",
             R("history", "diagnostics", 2000, 100000, np=1, omp=3, hang=30), R("history", "diagnostics", 1000, 60000, np=3, omp=1, hang=30), R("history", "diagnostics", 600, 40000, np=4, omp=1, hang=30)),
    "C30": C("property-based statistical testing of Brownian velocities against the fluctuation-dissipation relation",
             "up to 24 bodies, 1000 to 2000 draws per case; bounds at six standard deviations or more; 1 to 4 ranks and threads",
             R("history", "brown", 150, 8000, np=1, omp=1, hang=60), R("history", "brown", 100, 5000, np=1, omp=4, hang=60), R("history", "brown", 60, 4000, np=3, omp=2, hang=60)),
    "C15": C("property-based testing: the same systems on different ranks and threads against one serial reference solution",
             "up to 14 particles, two steps, 1 to 4 ranks and 1 to 3 threads",
             R("step", "anywhere", 600, 40000, np=1, omp=3, hang=30), R("step", "anywhere", 1000, 60000, np=2, omp=1, hang=30), R("step", "anywhere", 500, 40000, np=3, omp=2, hang=30),
             R("step", "anywhere", 700, 40000, np=4, omp=1, hang=30), R("step", "anywhere", 250, 30000, np=6, omp=1, hang=30)),
    "C16": C("model-based property testing: a run is stopped at a snapshot, restarted from its files and compared",
             "up to 16 particles and their links, snapshots past the folder boundary; 1 to 4 ranks",
             R("sysio", "restart", 500, 40000, np=1, omp=2, hang=30), R("sysio", "restart", 300, 30000, np=3, omp=1, hang=30), R("sysio", "restart", 150, 20000, np=4, omp=1, hang=30), R("sysio", "restart", 80, 10000, np=6, omp=1, hang=30)),
    "C17": C("property-based round-trip testing: written text files parsed by an independent reader and by the code's own loader",
             "up to 16 particles and their links anywhere in space; 1 to 4 ranks",
             R("sysio", "ascii", 1000, 60000, np=1, omp=2, hang=30), R("sysio", "ascii", 500, 30000, np=3, omp=1, hang=30), R("sysio", "ascii", 300, 20000, np=4, omp=1, hang=30)),
    "C18": C("property-based testing: written VTK files decoded by an independent strict reader",
             "up to 16 particles, ranks without particles, all constraint types; 1 to 4 ranks",
             R("sysio", "vtk", 800, 60000, np=1, omp=2, hang=30), R("sysio", "vtk", 500, 30000, np=3, omp=1, hang=30), R("sysio", "vtk", 300, 20000, np=4, omp=1, hang=30),
             R("geom", "vtkhelper", 10000, 300000)),
    "C32": C("property-based testing of initial configurations: generated files against their model, random fills against their distribution",
             "files in any line order, up to 3000 random rods; bounds at six standard deviations; 1 to 4 ranks and threads",
             R("sysio", "initfile", 800, 60000, np=1, omp=2, hang=30), R("sysio", "initfile", 400, 30000, np=3, omp=1, hang=30), R("sysio", "initfile", 250, 20000, np=4, omp=1, hang=30),
             R("sysio", "initrandom", 100, 8000, np=1, omp=1, hang=60), R("sysio", "initrandom", 100, 6000, np=1, omp=4, hang=60), R("sysio", "initrandom", 40, 4000, np=3, omp=2, hang=60)),
    "C33": C("model-based property testing of the snapshot schedule and of the files on disk",
             "time steps and intervals over six decades, up to 400 steps; 1 to 3 ranks",
             R("sysio", "schedule", 400, 20000, np=1, omp=1, hang=60), R("sysio", "schedule", 150, 10000, np=3, omp=1, hang=60)),
    "C20": C("property-based testing of bilateral constraints against the link list",
             "up to 14 particles and 28 links in every topology, 1 to 4 ranks",
             R("system", "links", 3000, 150000, np=1, omp=3), R("system", "links", 1500, 100000, np=4, omp=1), R("system", "links", 800, 50000, np=2, omp=2)),
    "C22": C("property-based testing: generated configuration files against the generating model",
             "random values, key orders, formats, optional subsets, missing and malformed required keys",
             R("config", "configfile", 4000, 200000)),
    "C11": C("property-based testing against exact quaternion rotation; uniformity statistics",
             "random orientations, rates and steps; statistical bounds at 6 sigma",
             R("geom", "rotate", 100000, 5000000), R("geom", "randquat", 60, 2000)),
    "C23": C("property-based testing of periodic images against exact arithmetic; distribution statistics",
             "random boxes and coordinates, including values next to the faces",
             R("geom", "pbcimage", 100000, 5000000), R("geom", "randpoint", 100, 5000)),
    "C27": C("property-based round-trip and differential testing against an independent RFC 4648 codec",
             "byte strings up to a few kB", R("geom", "base64", 20000, 1000000)),
    "C28": C("property-based testing against std::stable_sort", "random tag arrays",
             R("geom", "sorttag", 4000, 100000)),
    "C31": C("property-based testing of generated declarations and argument vectors against a model parser",
             "grammar-generated command lines", R("geom", "cmdline", 50000, 3000000), R("geom", "cmdtypes", 50000, 3000000)),
    "C34": C("property-based testing: random polynomials integrated exactly in long double",
             "all supported orders", R("geom", "gauss", 400, 20000)),
    "C24": C("model-based property testing of exchange and directory histories",
             "up to 3000 records per rank and round, three record sizes; 1 to 4 ranks and 1 to 3 threads",
             R("comm", "exchange", 4000, 300000, np=4, omp=1), R("comm", "exchange", 2000, 150000, np=3, omp=3), R("comm", "exchange", 1000, 50000, np=1, omp=2), R("comm", "exchange", 500, 50000, np=7, omp=1), R("comm", "directory", 500, 50000, np=7, omp=1),
             R("comm", "directory", 2500, 200000, np=4, omp=1), R("comm", "directory", 2000, 150000, np=3, omp=1), R("comm", "directory", 1500, 50000, np=1, omp=1)),
    "C25": C("property-based testing of the mixed pair search against an all-pairs search over periodic images",
             "up to 40 targets and 60 sources, radii up to the edge of the box, three rounds, and up to 1000 particles in deep trees; 1 to 7 ranks and 1 to 3 threads",
             R("comm", "mixpair", 8000, 300000, np=1, omp=1), R("comm", "mixpair", 4000, 100000, np=3, omp=1),
             R("comm", "mixpair", 3000, 60000, np=2, omp=3), R("comm", "mixpair", 3000, 100000, np=4, omp=1),
             R("comm", "mixbulk", 100, 10000, np=1, omp=2), R("comm", "mixbulk", 100, 10000, np=4, omp=2), R("comm", "mixbulk", 100, 5000, np=7, omp=1)),
    "C26": C("property-based round-trip testing: distributed objects against their concatenated local parts, dumps parsed independently",
             "up to 400 entries per rank, matrices up to 48 x 48; 1 to 4 ranks",
             R("comm", "tvector", 3000, 200000, np=4, omp=1), R("comm", "tvector", 2000, 100000, np=3, omp=2), R("comm", "tvector", 1500, 60000, np=1, omp=2),
             R("comm", "tmatrix", 1000, 60000, np=3, omp=1), R("comm", "tmatrix", 800, 60000, np=1, omp=1)),
    "C29": C("property-based testing of draw schedules; statistical tests of distribution and independence",
             "1 to 4 threads and ranks; statistical bounds at a probability below 1e-12; TRNG itself is replaced by a stand-in",
             R("comm", "rngstream", 4000, 200000, np=1, omp=4), R("comm", "rngstream", 2000, 100000, np=3, omp=2),
             R("comm", "rngdist", 300, 10000, np=1, omp=3), R("comm", "rngdist", 200, 8000, np=4, omp=1)),
    "C35": C("property-based round-trip testing of point sets over ranks and files",
             "up to 1000 points of up to 6 numbers; 1 to 4 ranks",
             R("comm", "points", 15000, 500000, np=1, omp=1), R("comm", "points", 4000, 200000, np=3, omp=1), R("comm", "points", 3000, 150000, np=4, omp=1),
             R("comm", "errors", 2000, 100000, np=1, omp=1), R("comm", "errors", 1000, 60000, np=3, omp=1)),
    "C36": C("property-based testing of every harness under AddressSanitizer and UndefinedBehaviorSanitizer",
             "the generators of the other properties, run on instrumented code; the oracle is the sanitizer and the property itself; leaks are not judged",
             *[R(h, f, q, t, qt=25, np=np, omp=omp, san="address,undefined", hang=90) for h, f, q, t, np, omp in (
                 ("geom", "segseg", 3000, 300000, 0, 1), ("geom", "rotate", 3000, 200000, 0, 1), ("geom", "base64", 3000, 100000, 0, 1),
                 ("geom", "sorttag", 600, 20000, 0, 1), ("geom", "cmdline", 5000, 300000, 0, 1), ("geom", "gauss", 140, 2000, 0, 1),
                 ("config", "boundaryproj", 5000, 200000, 0, 1), ("config", "configfile", 600, 20000, 0, 1), ("near", "pairblock", 4000, 200000, 0, 1),
                 ("solvers", "bcqp", 1000, 50000, 2, 2), ("solvers", "lcp", 300, 20000, 2, 1),
                 ("constraint", "assemble", 300, 20000, 3, 2), ("constraint", "solve", 60, 5000, 2, 1),
                 ("comm", "exchange", 400, 20000, 3, 2), ("comm", "directory", 300, 20000, 3, 1), ("comm", "mixpair", 300, 20000, 3, 1), ("comm", "mixpair", 200, 20000, 1, 3),
                 ("comm", "tvector", 200, 10000, 3, 1), ("comm", "tmatrix", 60, 5000, 2, 1), ("comm", "rngstream", 200, 10000, 2, 2), ("comm", "points", 600, 30000, 3, 1),
                 ("step", "step", 200, 20000, 2, 2), ("step", "anywhere", 60, 10000, 3, 1), ("history", "conserve", 200, 20000, 3, 1), ("history", "insertion", 150, 10000, 3, 1),
                 ("history", "diagnostics", 100, 10000, 2, 2), ("sysio", "vtk", 100, 10000, 2, 1), ("sysio", "restart", 40, 5000, 2, 1), ("sysio", "initfile", 150, 10000, 3, 1),
                 ("sysio", "initrandom", 15, 1000, 2, 2))]),
    "C37": C("property-based testing of every threaded harness under ThreadSanitizer with happens-before analysis of OpenMP (archer)",
             "the generators of the other properties, run with 3 threads on code instrumented by clang; a race is found whatever the schedule that ran",
             *[R(h, f, q, t, qt=25, np=np, omp=3, san="thread", cxx="clang++", hang=90) for h, f, q, t, np in (
                 ("geom", "sorttag", 600, 20000, 0), ("solvers", "bcqp", 300, 20000, 1),
                 ("constraint", "assemble", 400, 20000, 2), ("constraint", "solve", 60, 5000, 1),
                 ("comm", "exchange", 400, 20000, 2), ("comm", "directory", 300, 20000, 2), ("comm", "mixpair", 400, 20000, 2),
                 ("comm", "tvector", 200, 10000, 2), ("comm", "rngstream", 300, 20000, 1), ("comm", "points", 200, 10000, 2),
                 ("system", "pairs", 300, 20000, 2), ("system", "boundary", 300, 20000, 1), ("system", "mobility", 200, 20000, 1), ("system", "links", 300, 20000, 2),
                 ("step", "step", 250, 20000, 1), ("step", "anywhere", 80, 10000, 2), ("history", "conserve", 250, 20000, 1), ("history", "insertion", 150, 10000, 2),
                 ("history", "diagnostics", 150, 10000, 1), ("history", "brown", 20, 500, 1), ("sysio", "vtk", 120, 10000, 1), ("sysio", "ascii", 100, 10000, 1),
                 ("sysio", "restart", 40, 5000, 1), ("sysio", "initfile", 150, 10000, 2), ("sysio", "initrandom", 20, 1000, 1))]),
    "C38": C("property-based testing over crash points: every file event of generated runs is a moment at which the run may be killed",
             "the interposed file functions see every change of the disk; what a restart would read then is compared with the snapshots before and after",
             R("crash", "crashpoints", 120, 10000, np=1), R("crash", "crashpoints", 120, 10000, np=2), R("crash", "crashpoints", 100, 10000, np=3)),
    "C39": C("property-based testing of the program: generated configurations, interrupted and killed runs against the uninterrupted run",
             "real processes, killed by SIGKILL at a random change of a file on a random rank; the snapshots must be those of the run without interruption",
             R("program", "program", 60, 5000, qt=150, tt=3000, hang=200)),
    "C40": C("metamorphic property-based testing: the same system in other axes, units, names and order",
             "up to 14 particles, links, one boundary, one step; 1 to 3 ranks; tolerance derived from the reported residuals",
             R("step", "covariant", 1500, 100000, np=1, omp=1, hang=30), R("step", "covariant", 600, 50000, np=3, omp=1, hang=30), R("step", "covariant", 400, 30000, np=2, omp=3, hang=30)),
    "C41": C("differential property-based testing: relaxation at the start against as many quiet steps",
             "up to 12 particles, 0 to 6 relaxation steps, one rank and thread (the order of sums must be the same)",
             R("step", "presteps", 1200, 100000, np=1, omp=1, hang=30)),
}
NOT_APPLICABLE = {}

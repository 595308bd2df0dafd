# property -> (technique, level note)
LIB = ("Bounded random exploration with an exact oracle: no violation among the generated cases; the "
       "library source is compiled unmodified. ")
NOTES = {
 "C01": ("property-based testing (Hypothesis), differential: every program against one reference solution",
         "Bounded random exploration of the built programs as users run them; agreement to the printed precision."),
 "C05": ("property-based testing (Hypothesis): conservation and bound invariants over generated histories",
         "Bounded random exploration of the unmodified solvers (up to 300 steps) and of the programs' output."),
 "C06": ("property-based testing (Hypothesis) of generated inputs under generated thread schedules (own OpenMP runtime "
         "with a happens-before race detector), metamorphic: bit-for-bit equal to one thread",
         "Schedules are sampled, at the granularity of instrumented memory accesses, sequentially consistent; no "
         "violation among the generated schedules. The sources are compiled unmodified."),
 "C16": ("property-based testing (Hypothesis) of generated command lines against a model of them",
         "Bounded random exploration of the built programs; what a program computes is observed through its "
         "output and files."),
 "C18": ("property-based testing (Hypothesis): write/read round-trip through an independent VTK reader",
         "Bounded random exploration; values are compared to the printed precision."),
 "C19": ("property-based testing (Hypothesis), differential against exact products, and a fault injected in one "
         "routine to test the program's verdict",
         "Bounded random exploration of the unmodified module and of the built program."),
 "C02": ("property-based testing (Hypothesis), differential against an independent numpy upwind scheme",
         "Bounded random exploration of the unmodified solver classes (1-5 axes, up to 60000 cells, 60 steps); "
         "fields are compared up to a derived rounding bound."),
 "C03": ("property-based testing (Hypothesis), differential against an independent numpy upwind scheme",
         "Bounded random exploration of the unmodified solver modules (1-5 axes, up to 60000 cells, 60 steps); "
         "fields are compared up to a derived rounding bound."),
 "C04": ("property-based testing (Hypothesis), differential against an independent numpy upwind scheme",
         "Bounded random exploration; the MPI solver under Open MPI on 1-8 ranks, one schedule per run."),
 "C07": ("metamorphic property-based testing (Hypothesis) of single solvers and of interleaved histories",
         "Bounded random exploration; no reference scheme is involved."),
 "C11": ("property-based testing (Hypothesis) against a reference enumeration and a tiling predicate",
         LIB + "Small grids are enumerated exhaustively besides the random ones; up to 6 axes."),
 "C12": ("property-based testing (Hypothesis) against an exact rational-cost reference",
         LIB + "Small grids are enumerated exhaustively besides the random ones; ties are free."),
 "C13": ("property-based testing (Hypothesis), geometric adjacency oracle on the reported boxes",
         LIB + "All ranks and all 3^d directions of each generated decomposition (capped)."),
 "C14": ("stateful property-based testing (Hypothesis) against an index-arithmetic model",
         LIB + "Includes boxes with more than 2^32 terms (moved to, not enumerated)."),
 "C15": ("property-based testing (Hypothesis) against a model of the parser",
         LIB + "Domain: what the parser can express (values that look like options are refused)."),
 "C08": ("property-based testing (Hypothesis) of operation histories against a serial reference model, "
         "under a simulated MPI with seeded schedules and under Open MPI",
         LIB + "1-16 simulated ranks, grids up to 160 cells."),
 "C09": ("property-based testing (Hypothesis) of histories under generated schedules of a simulated MPI that "
         "delays one-sided data and checks every call",
         "Schedules are sampled, at the granularity of MPI calls, and MPI is the simulation: no violation "
         "among the generated schedules."),
 "C10": ("property-based testing (Hypothesis): programs against serial reference models, under a simulated MPI "
         "and under Open MPI",
         LIB + "Rank counts 1-16, including those without a uniform decomposition."),
 "C17": ("property-based testing (Hypothesis): write/read round-trip through an independent VTK reader",
         LIB + "Values and coordinates are compared to the printed precision."),
 "C20": ("property-based testing (Hypothesis) of API histories and fuzzed command lines under AddressSanitizer, "
         "UndefinedBehaviorSanitizer, gfortran run-time checks and valgrind memcheck",
         "Bounded random exploration; the oracle is the tools' reports. MPI is the simulation, whose memory blocks "
         "and windows are exact."),
 "C21": ("differential property-based testing (Hypothesis) of builds: the same generated problem on every "
         "configuration, against the default build",
         "Nine direct configurations of every solver and six CMake configurations of every program; OpenACC and "
         "OpenMP target regions run on the host."),
 "C24": ("property-based testing (Hypothesis), differential against the host build, on a simulated accelerator (own "
         "offloading runtime with a separate device memory and a race detector) under generated schedules",
         "No accelerator is present: what is executed is gcc's lowering of the directives on a simulated device; code "
         "generation for a real one is not."),
 "C22": ("property-based testing (Hypothesis) of the programs and of solver histories, interpreted, against a reference "
         "upwind model",
         "No Julia is installed: the programs run in an interpreter of the part of Julia they use (harness/minijulia.py), "
         "which is a model of the language. Constructs it does not know leave a case undecided."),
}
NOT_APPLICABLE = {
 "C23": "upwind5.pyx needs Cython to build (not installed, cannot be fetched) and uses Python 2 "
        "constructs and removed numpy names, so it cannot be executed on any input.",
}

from .. import allobl

LEVEL = "model_checking"
TECHNIQUE = ("memory contracts (each access inside an object the caller designated, initialised where it is read, writable where it is written; nothing written "
             "past a requested length) on every access of the LLVM IR of the current sources, decided by symbolic execution with every data bit a single unknown "
             "and, for the loops of the low-level layer, inferred loop invariants")
ASSUMPTIONS = ["preconditions as documented (lengths of the buffers, offset + length within the state)", "x86 assembler files are not covered",
               "high-level functions: lengths, offsets and call sequences enumerated; the low-level layer by its contracts (decided here too)"]
NOTE = ("Low-level bulk kernels and permutations: all lengths by loop invariants; state access: offsets and lengths around lane boundaries in the quick tier (all in "
        "the thorough tier and under C02, C04, C06, C07). High-level functions: the lengths and histories of C10 to C25. Data never restricted.")


def jobs(tier):
    return allobl.jobs(tier, "mem")

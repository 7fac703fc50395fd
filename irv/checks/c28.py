from .. import allobl

LEVEL = "model_checking"
TECHNIQUE = ("noninterference contract: in the LLVM IR of the current sources, executed symbolically with every key, message and state bit a single unknown, no branch, "
             "address, length or division depends on the unknown, except the final accept/reject decision (Unwrap, WBC-AE Decipher)")
ASSUMPTIONS = ["select instructions on data are free of timing (clang compiles them to masks or cmov)", "integer instructions other than division take constant time",
               "x86 assembler files are not covered", "high-level functions: lengths, offsets and call sequences enumerated"]
NOTE = ("All secret values at once; permutations, state access and bulk kernels of every C implementation, and the high-level functions over the lengths and "
        "histories of C10 to C25, on every build target whose code differs. Judged on the IR before optimisation.")


def jobs(tier):
    return allobl.jobs(tier, "ct")

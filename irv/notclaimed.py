"""why a property has no check"""
REASONS = {
    "C26": "a relation between build targets with no contract of its own: it follows from C01 to C25, which decide every target against the same "
           "specification (the x86 assembler kernels aside, see DESIGN.md); a check of it would repeat those obligations and decide nothing more",
    "C30": "no deductive verifier for Python or for this Rust file is at hand that covers it: the contract verifier built here reads LLVM IR of C; the Rust file uses slices "
           "and iterators of the standard library whose contracts vstd/Verus does not provide without rewriting the code, which would be a model",
    "C31": "assembler for ARM and AVR: no verifier here takes assembler under contract, and there is no toolchain to assemble or run it",
}

import importlib

MODULES = ["generic", "lists", "tree", "wire", "psockio", "fiber", "registry", "asm", "messaging", "guard", "core", "osapi", "psockbuf", "headers", "trigger", "strings", "uuid", "outputs", "psockmake", "bigint", "services", "descriptors", "hidden"]

ASSUMPTIONS = [
    "clang 18 front end and its LLVM IR are a faithful rendering of the C source (analysed configuration: -DNDEBUG, x86-64 Linux)",
    "the contracts in sa/models.py for libc, system calls, pthreads and the allocator interface enumerate every outcome these may have",
    "the allocator's reclaim operation succeeds, except where a check says that it also lets it fail (B01, E01, F05)",
    "distinct pointer arguments of an operation do not alias, and caller-supplied pointers satisfy the documented preconditions",
]


def load():
    for m in MODULES:
        importlib.import_module("checks." + m)

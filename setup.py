#!/usr/bin/env python3
"""Verifies that the tools the checks need are present. The harnesses themselves
are built by every check from /repo's current tree."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from props import VARIANTS

os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    src = os.path.join(tmp, "t.c")
    for name, v in VARIANTS.items():
        if v.get("optional"):
            continue
        with open(src, "w") as f:
            f.write("#include <stddef.h>\n#include <stdint.h>\nint LLVMFuzzerTestOneInput(const uint8_t* d, size_t n);\n"
                    "#if defined __clang__ && !defined MON_FUZZ\n__attribute__((no_sanitize(\"coverage\")))\nvoid __sanitizer_cov_trace_pc(void) { }\n#endif\n"
                    "int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { (void) d; (void) n; return 0; }\n"
                    "#ifndef MON_FUZZ\nint main(void) { return LLVMFuzzerTestOneInput(0, 0); }\n#endif\n")
        r = subprocess.run(v["cc"] + [src, "-o", os.path.join(tmp, "t")])
        if r.returncode != 0:
            sys.exit("compiler for variant %s does not work" % name)
    print("setup: all compiler variants work")
finally:
    shutil.rmtree(tmp, ignore_errors=True)

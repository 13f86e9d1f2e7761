#!/usr/bin/env python3-vt
"""Nothing is built ahead of a check (each builds the compiler from /repo itself); this makes sure the tools are there."""
import shutil
import sys
import z3
missing = [t for t in ('gcc', 'make', 'clang', 'cbmc', 'qemu-arm', 'qemu-riscv32') if not shutil.which(t)]
if missing:
    sys.exit('missing tools: %s' % missing)
print('z3', z3.get_version_string())

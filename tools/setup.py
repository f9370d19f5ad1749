#!/usr/bin/env python3
"""setup_cmd: verifies that the tools the checks use are present."""
import shutil, sys
need = ['clang-18', 'opt-18', 'llvm-link-18', 'bison', 'flex', 'gcc', 'awk']
miss = [t for t in need if not shutil.which(t)]
if miss:
    print('missing tools:', miss); sys.exit(1)
print('tools present')

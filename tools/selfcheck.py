#!/usr/bin/env python3
"""setup_cmd: verifies that the toolchain the checks need is present."""
import shutil, sys, os
miss = [t for t in ('g++', 'gcc', 'clang++', 'cmake', 'ninja', 'python3') if not shutil.which(t)]
if not os.path.isdir('/usr/include/eigen3'): miss.append('eigen3')
if miss:
    print('missing:', miss); sys.exit(1)
print('ok')

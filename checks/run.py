#!/usr/bin/env python3
"""python3 checks/run.py C01: runs the check of a property (tier and seed from VERIF_TIER and VERIF_SEED)"""
import os, shutil, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import core, checks
if sys.argv[1] == '--self-test':
    missing = [t for t in ('g++', 'clang++', 'cmake', 'make', 'localedef', 'valgrind') if not shutil.which(t)]
    if missing:
        sys.exit('missing tools: ' + ', '.join(missing))
    print('checks:', ' '.join(checks.CHECKS))
    sys.exit(0)
fn, kw = checks.CHECKS[sys.argv[1]]
core.main(fn, sys.argv[1], **kw)

#!/usr/bin/env python3
"""search.py CONTRACT.c: runs the failing-history searches of a contract file on the current tree (they must find nothing)"""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import driver
for h in sys.argv[1:]:
    tmp = tempfile.mkdtemp(prefix='vfs')
    try:
        driver.config_inc(tmp)
        n = driver.Native(tmp, os.path.abspath(h))
        print(h, n.search(tmp + '/r', 1), n.err)
        if os.path.exists(tmp + '/r'): print(open(tmp + '/r').read())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

#!/usr/bin/env python3
"""Runs one concrete case again on /repo's current code: --property P --case NAME:SEED:CASE. Exit 1 if it still fails."""
import sys, os, argparse, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
ap = argparse.ArgumentParser(); ap.add_argument('--property', required=True); ap.add_argument('--case', required=True)
a = ap.parse_args()
name, seed, case = a.case.rsplit(':', 2)
tmp = tempfile.mkdtemp(prefix='onexv_')
try:
    h = check.Harness(tmp, a.property); h.build()
    if h.error: sys.exit(h.error)
    f, out = h.one(name, int(seed), int(case), 1, 0, 'replay')
    print(f['what'] if f else 'the case passes')
    rc = 1 if f else 0
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(rc)

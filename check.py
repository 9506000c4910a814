#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough] [--replay FILE] [-n RUNS] [-i FIRST] [-k] [-v]"""
import sys, os
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim')]
import dst, traceback
try: rc = dst.main(sys.argv[1], sys.argv[2:])
except Exception: traceback.print_exc(); rc = 2
sys.exit(rc)

#!/usr/bin/env python3
"""Decide one property from the source of /repo.

usage: check.py PROPERTY [--only PATTERN] [--verbose]
"""
import sys
sys.path.insert(0, __file__.rsplit('/', 1)[0] or '.')
sys.setrecursionlimit(30000)
from vf.runner import main

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

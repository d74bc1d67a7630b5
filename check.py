#!/usr/bin/env python3
"""check.py <property id> [--thorough]"""
import sys
from engine import runner

if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(runner.check(sys.argv[1], "--thorough" in sys.argv[2:]))

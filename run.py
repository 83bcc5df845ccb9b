#!/usr/bin/env python3
"""run.py check ID | replay FILE | setup | list"""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import checks
if __name__ == "__main__":
    sys.exit(checks.main(sys.argv[1:]))

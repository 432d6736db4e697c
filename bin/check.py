#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import suites
if __name__ == '__main__':
    sys.exit(suites.run(sys.argv[1]))

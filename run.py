#!/usr/bin/env python3
"""Driver of the checks: run.py <property> [--tier quick|thorough] [--seed N]
                         run.py --replay <file>
Builds the library from /repo's current working tree in the variants a property needs, runs the monitors,
writes evidence/<property>.json, prints VIOLATION lines. Exit 0 held, 1 violated, 2 no verdict."""
import sys, os, time, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import driver

if __name__ == '__main__':
    sys.exit(driver.main(sys.argv[1:]))

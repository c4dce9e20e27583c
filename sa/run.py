#!/usr/bin/env python3
"""python3 sa/run.py --property ID : decide one property; see DESIGN.md"""
import argparse
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading

sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)


def main(rc):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.setup:
        import core
        core.World.get()
        print('facts ready')
        rc[0] = 0
        return
    import registry
    ps = sorted(registry.rules()) if a.property == 'all' else a.property.split(',')
    rc[0] = max(registry.run(p, a.thorough, a.v) for p in ps)


if __name__ == '__main__':
    rc = [2]
    t = threading.Thread(target=main, args=(rc,))
    t.start()
    t.join()
    sys.exit(rc[0])

"""Runs operations of ``fn_ops`` on the real package: fn_driver.py REPO.

Reads ``[[op, request], ...]`` and writes the claims which do not hold.
"""
import collections
import json
import os
import sys


def main():
    repo = sys.argv[1]
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    jobs = json.load(sys.stdin, object_pairs_hook=collections.OrderedDict)
    import importlib
    out = []
    for mod, op, req in jobs:
        ops = importlib.import_module(mod)
        try:
            claims = ops.run(op, req)
            out.append({'failed': [t for t, c in claims if not c],
                        'claims': len(claims)})
        except ops.Skip:
            out.append({'skipped': True})
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()

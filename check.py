#!/usr/bin/env python3-vt
"""check.py <property-id>: decides one property on /repo's current working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(1000000)
sys.dont_write_bytecode = True
TABLE = {}


def main():
    pid = sys.argv[1]
    if pid in ('C01', 'C02', 'C03', 'C04', 'C05'):
        from lib.sha import check_sha
        return check_sha(pid)
    from vir import props
    if pid in props.PROVE: return props.check(pid)
    raise SystemExit('unknown property ' + pid)


if __name__ == '__main__':
    sys.exit(main())

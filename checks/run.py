#!/usr/bin/env python3
"""Entry point: run.py <property id> | run.py --replay <file>"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
VT = "/opt/veriftools/pyvenv/bin/python3"
try:
    import z3, mpmath  # noqa: F401
except ImportError:
    os.execv(VT, [VT] + sys.argv)


def main(a):
    if a[0] == "--replay":
        v = json.load(open(a[1]))
        m = importlib.import_module("checks.specs." + v["property"])
        return m.runner().replay(v)
    m = importlib.import_module("checks.specs." + a[0])
    return m.runner().run()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

#!/usr/bin/env python3
"""Decide one property from /repo's current source:  python3 /verif/run.py C01"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading
from arx.report import main


def go():
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid)
    return main(pid, mod.check)


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(go()))
    t.start(); t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 3)

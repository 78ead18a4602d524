"""Finds the module of a check: nnv/checks/cNN_*.py"""
import glob
import importlib
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")


def ids():
    return sorted(os.path.basename(p)[:3].upper() for p in glob.glob(os.path.join(HERE, "c[0-9][0-9]_*.py")))


def load(check):
    found = glob.glob(os.path.join(HERE, check.lower() + "_*.py"))
    if len(found) != 1:
        raise RuntimeError(f"no check {check}")
    return importlib.import_module("nnv.checks." + os.path.basename(found[0])[:-3])

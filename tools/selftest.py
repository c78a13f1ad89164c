#!/opt/venv/bin/python
"""setup: nothing to build (pure Python); check that the engine, z3 and the code under verification import"""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from vc import contract  # noqa
import z3
print("engine ok, z3", z3.get_version_string())
import importlib.util
sp = importlib.util.spec_from_file_location("fuzz_norm", os.path.join(HERE, "tools", "fuzz_norm.py"))
fz = importlib.util.module_from_spec(sp)
sp.loader.exec_module(fz)
sys.exit(1 if fz.main(80) else 0)

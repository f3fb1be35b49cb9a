"""Entry point: check.py C01 [--replay FILE | --case N]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))

pid = sys.argv.pop(1)
import vlib                                     # noqa: E402
mod = importlib.import_module(pid.lower())
sys.exit(vlib.main(mod))

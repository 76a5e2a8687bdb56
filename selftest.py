"""Setup: checks that the engine can be loaded and that the tools it needs are there."""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import z3, cvc5
from pydv import task
print('z3', z3.get_version_string(), 'cvc5', cvc5.__version__)
assert os.path.exists('/opt/venv/bin/python')

"""Entry point of the checks: see vp/core.py"""
import sys
sys.dont_write_bytecode = True
from vp import core
sys.exit(core.main(sys.argv[1:]))

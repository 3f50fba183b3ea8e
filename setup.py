"""build the front end and dump the current tree once (checks re-use it only if the tree is byte-identical)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from hv import program
print(program.tool())

#!/opt/veriftools/pyvenv/bin/python3
"""run.py PROPERTY quick|thorough"""
import sys, os, importlib
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(os.path.dirname(H), 'engine', 'sym')]
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
import lib
prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
mod = importlib.import_module(prop.lower())
lib.main(prop, tier, mod.setup)

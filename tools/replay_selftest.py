#!/usr/bin/env python3-vt
"""run the native replay driver of a property on the current tree (it must find nothing there)"""
import glob, importlib.util, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vp import contract
for pid in sys.argv[1:]:
    f = glob.glob(os.path.join(HERE, 'contracts', pid.lower() + '_*.py'))[0]
    spec = importlib.util.spec_from_file_location('c', f)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    chk = contract.Check(pid, 'quick', int(os.environ.get('VERIF_SEED', '1')))
    print(pid, contract.do_replay(chk, mod.REPLAY))

#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]   decide one property against /repo's current tree"""
import argparse
import glob
import importlib.util
import os
import sys
import resource

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    if os.environ.get('PYTHONHASHSEED') is None:   # same queries in the same order on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    fs = glob.glob(os.path.join(HERE, 'contracts', a.property.lower() + '_*.py'))
    if len(fs) != 1:
        print('no contracts for', a.property)
        return 2
    spec = importlib.util.spec_from_file_location('contracts_' + a.property, fs[0])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    from vp.contract import run_property
    return run_property(a.property, mod.TITLE, mod.contracts, getattr(mod, 'REPLAY', None), a.tier, seed,
                        evidence_extra=getattr(mod, 'EVIDENCE', None))


if __name__ == '__main__':
    import threading
    threading.stack_size(512 << 20)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)

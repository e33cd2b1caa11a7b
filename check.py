#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]: runs one property check against /repo's working tree."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
from vk import build, core
def main():
    pid = sys.argv[1]
    if pid == 'setup':
        return 0
    mod = importlib.import_module('checks.' + pid.lower())
    try:
        return mod.run()
    except build.BuildError as e:
        print('BUILD ERROR', e)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
sys.exit(main())

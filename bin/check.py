#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's working tree (VERIF_TIER, VERIF_SEED)."""
import sys, os, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
def main(prop):
    if prop in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10'):
        import cmcheck; return cmcheck.check(prop)
    import importlib
    return importlib.import_module('p_' + prop.lower()).check(prop)
if __name__ == '__main__':
    try: rc = main(sys.argv[1])
    except vf.BuildError as e: print('ERROR: /repo does not build in the harness:\n' + str(e)[:4000]); rc = 2
    except Exception: traceback.print_exc(); rc = 3
    sys.stdout.flush(); sys.exit(rc)

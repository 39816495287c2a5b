#!/usr/bin/env python3
"""check.py <property id> : decides one property on /repo's current tree."""
import sys,os,time,importlib
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'rules'))
sys.dont_write_bytecode=True
import core
from registry import REG
def main():
    prop=sys.argv[1]; tier=os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv)>2 else 'quick')
    if len(sys.argv)>2: tier=sys.argv[2]
    mod,fn=REG[prop]
    t0=time.time()
    try: return getattr(importlib.import_module(mod),fn)(prop,tier,t0)
    except core.Broken as e:
        print('analysis error (no verdict): %s'%e); return 3
    except Exception:
        import traceback; traceback.print_exc(); print('analysis error (no verdict)'); return 3
if __name__=='__main__': sys.exit(main())

#!/usr/bin/env python3
"""check.py CNN [--replay FILE]: decides one property by deterministic simulation (seed: VERIF_SEED, depth: VERIF_TIER)."""
import os, sys
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.framework import run_check, replay_main
from lib.registry import get
def main():
    pid = sys.argv[1]; ck = get(pid)
    if len(sys.argv) > 3 and sys.argv[2] == '--replay': return replay_main(ck, sys.argv[3])
    return run_check(ck, int(os.environ.get('VERIF_SEED', '1')), os.environ.get('VERIF_TIER', 'quick'))
if __name__ == '__main__':
    try: rc = main()
    except Exception:
        import traceback; traceback.print_exc(); rc = 3
    sys.stdout.flush(); os._exit(rc)

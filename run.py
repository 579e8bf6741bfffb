"""Usage: python3-vt run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import pbt


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--replay')
    a = p.parse_args()
    try:
        rc = pbt.run(a.property, a.tier, a.seed, a.replay)
    except pbt.HarnessError as e:
        print('HARNESS ERROR', e, file=sys.stderr)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()

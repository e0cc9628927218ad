import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import harness  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
ap.add_argument('--replay')
ap.add_argument('--subs')
ap.add_argument('--scale', type=float, default=1.0)
args = ap.parse_args()
try:
    rc = harness.main(args.prop, args.tier, args.seed, replay=args.replay,
                      only=args.subs.split(',') if args.subs else None, scale=args.scale)
except BaseException:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)

"""What setup.sh builds beside the end-to-end base."""
import sys
import build, rslib

def prebuild_all():
    for f in (rslib.prebuild,):
        try: f()
        except build.BuildError as e: print(f"note: {e}", file=sys.stderr)

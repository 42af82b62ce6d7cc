"""Prebuilds everything the checks use (they rebuild what changed since)."""
import sys, time
import build

def main():
    t = time.time()
    try:
        build.e2e_base()
        build.e2e_unwind_base()
    except build.StdBindingsError as e:
        print(f"note: {e}", file=sys.stderr)
    print(f"e2e base ready after {time.time() - t:.0f} s")
    try:
        import harness
    except ImportError:
        return 0
    harness.prebuild_all()
    print(f"done after {time.time() - t:.0f} s")
    return 0

if __name__ == "__main__":
    sys.exit(main())

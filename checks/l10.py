"""L10: char_, StrRef, SliceRef, usize and isize agree with their Rust counterparts."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import cxxlib
if __name__ == "__main__":
    sys.exit(cxxlib.main("L10", "a case is a code point, a byte string or a pair of strings or slices; every code point and every string of up to two bytes are enumerated; non-trivial: valid non-ASCII-only text, slices of at least two elements, pairs of non-empty strings",
                         cxxlib.unit("l10", ["$REPO/support/rs_std/char.cc"]), cxxlib.unit("l10b", rs="l10")))

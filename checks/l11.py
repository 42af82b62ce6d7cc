#!/usr/bin/env python3
"""L11: MemSwap, Slot, Movable, MoveAssignOrDestroyAndConstruct and the aliasing check."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import cxxlib
if __name__ == "__main__":
    sys.exit(cxxlib.main("L11", "a case is a set of up to six mutable and six shared ranges, a byte pattern to swap, or a history of up to 60 operations on four Movable (or one Slot) of one of seven kinds of types; non-trivial: at least one mutable and two ranges in all, more than four operations, any swap",
                         cxxlib.unit("l11", ["$REPO/support/internal/check_no_mutable_aliasing.cc"])))

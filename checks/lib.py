#!/usr/bin/env python3
"""The library checks: `lib.py L01` runs rs/src/bin/l01.rs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import rslib
prop = sys.argv.pop(1)
sys.exit(rslib.check(prop, prop.lower()))

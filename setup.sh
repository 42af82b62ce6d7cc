#!/bin/bash
# Builds what every check shares from /repo's current tree into /verif/.build (never into /repo).
cd "$(dirname "$0")" || exit 1
exec python3 lib/setup_all.py

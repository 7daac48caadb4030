#!/bin/bash
# Build everything the checks need, once. Nothing is written outside
# /verif/target (and /verif/evidence by the checks themselves).
cd "$(dirname "$0")" || exit 1
exec python3 driver/setup.py

#!/bin/sh
# Builds the simulated package once; every check rebuilds if /repo has changed.
cd "$(dirname "$0")" && python3 -B sim/simbuild.py

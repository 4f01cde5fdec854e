#!/bin/bash
cd "$(dirname "$0")" && python3 lib/build.py engine && python3-vt -c 'import sys; sys.path.insert(0, "lib"); import symx; symx.harness("mpt"); symx.harness("smt"); symx.harness("dec")'

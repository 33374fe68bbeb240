#!/bin/bash
# Compiles the TLC operator overrides; everything else is interpreted.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c "import sys; sys.path.insert(0, 'harness'); import tlc; tlc.build_java()"

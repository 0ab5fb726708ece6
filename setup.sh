#!/bin/bash
# Build the C++ extension of /repo's current tree into /verif/.build (each check does this itself when needed).
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
chmod +x check replay.py
/opt/venv/bin/python -m vlib.cppbuild

#!/bin/sh
# Nothing to compile: checks the interpreter and that the working tree loads under the simulator.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python --jit off -W ignore -B run.py one C10 1 0 > /dev/null
echo ready

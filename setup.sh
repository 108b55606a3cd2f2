#!/bin/sh
# nothing is kept between runs: every check compiles the seam and imports /repo/src itself; this only verifies the tools are there
set -e
cd "$(dirname "$0")"
gcc -O1 -w -shared -fPIC -o /dev/null sim/simio.c -ldl -lpthread
/opt/venv/bin/python -c "import numpy, pandas, tables, pooch"

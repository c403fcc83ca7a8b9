#!/bin/sh
# Nothing is built ahead: the checks import /repo/src directly. This only verifies the tools they need.
set -e
cd "$(dirname "$0")"
chmod +x check
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, antlr4, numpy, h5py
print('hypothesis', hypothesis.__version__)
P
gcc --version | head -1

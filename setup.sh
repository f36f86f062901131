#!/bin/bash
# builds the IR dumper (the only compiled part of the framework)
set -eu
cd "$(dirname "$0")"
python3-vt -c "
import sys; sys.path.insert(0, '.')
from vf import prove; print(prove.irdump())"

#!/bin/bash
# builds the MIR driver and dumps the current tree once
set -e
cd "$(dirname "$0")"
python3 -c "
from pq.frame import dump
dump('full')"

#!/bin/bash
# builds the extraction driver and analyses the current tree once
cd "$(dirname "$0")" || exit 1
mkdir -p .build && ./run_extract.sh "${SA_REPO:-/repo}" "$PWD/.build/setup.json" && python3 -c 'import sys; sys.path.insert(0,"sa"); import registry'

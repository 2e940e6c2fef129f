#!/bin/bash
# Builds the analyser from the committed sources and analyses the present tree once, so that the checks of the same
# tree find the result by the content of the sources; any other tree is analysed by the check itself.
set -e
cd "$(dirname "$0")/engine" && mkdir -p ../build && make -s -j8
[ "$1" = build ] || timeout 1500 python3 ../tools/check.py --prefill || true

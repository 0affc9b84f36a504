#!/bin/bash
# builds the simulator and the test locales, and checks that they work
set -e
cd "$(dirname "$0")"
python3 check.py --setup

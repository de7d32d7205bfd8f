#!/bin/bash
# one property, terse
cd "$(dirname "$0")/.."
VP_VERBOSE=1 python3-vt check.py "$@" 2>&1 | cut -c1-330 | grep -v "  -- " | tail -40

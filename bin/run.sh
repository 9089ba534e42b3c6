#!/bin/bash
# bin/run.sh PROPERTY TIER
cd "$(dirname "$0")/.." || exit 1
exec python3-vt check.py "$1" --tier "${2:-quick}"

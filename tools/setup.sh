#!/bin/bash
# Builds the run time part of the harness, so that the checks find its dependencies built.
set -e
cd "$(dirname "$0")/.."
exec python3 tools/setup.py

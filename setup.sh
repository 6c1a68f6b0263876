#!/bin/bash
# Builds the monitors and the library once, from the committed files and
# /repo's working tree; each check rebuilds what has changed since.
cd "$(dirname "$0")" && exec python3 check.py --build-all

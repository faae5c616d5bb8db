#!/bin/bash
# builds everything once; the checks rebuild what changed
cd "$(dirname "$0")" && exec python3 -B lib/setup.py

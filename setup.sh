#!/bin/bash
# builds the symbolic executor and the bitcode of /repo's current tree into /verif/cache
cd "$(dirname "$0")" && python3 tools/bc.py

#!/bin/bash
# builds the crates under check (with their MIR) and the executable contracts
cd "$(dirname "$0")" && exec python3-vt check.py --setup

#!/usr/bin/env bash
# C20: AddressSanitizer and Miri runs (see c20.py)
exec python3 "$(dirname "$0")/c20.py" "$@"

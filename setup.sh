#!/bin/bash
# Builds the harness programs once, so that the checks start from a warm compiler cache.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
python3 lib/build.py iqhost
python3 lib/build.py iqvalue
python3 lib/build.py iqmem

#!/bin/bash
# regenerate the derived files, commit
cd "$(dirname "$0")/.." && python3 tools/make_properties.py && python3 tools/make_manifest.py && python3 tools/make_known.py && python3 tools/make_design.py && git add -A && git commit -qm "$1"

#!/bin/sh
# developer helper: regenerate properties.jsonl and MANIFEST.json
cd "$(dirname "$0")" && python3 spec/properties.py && python3-vt gen.py
python3 dev/design.py

#!/bin/sh
# regenerate properties.jsonl and MANIFEST.json (authoring step)
cd "$(dirname "$0")/.." && python3 tools/gen_properties.py && python3 tools/gen_manifest.py

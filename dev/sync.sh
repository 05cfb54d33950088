#!/bin/bash
# regenerates properties.jsonl, MANIFEST.json, known_findings.json and the tail of DESIGN.md
cd "$(dirname "$0")" && python3 findings.py && python3 gen.py && python3 design_tail.py

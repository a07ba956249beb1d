#!/bin/bash
# Regenerates the committed lists from the property modules.
cd "$(dirname "$0")/.." && /opt/venv/bin/python tools/properties.py && /opt/venv/bin/python tools/manifest.py

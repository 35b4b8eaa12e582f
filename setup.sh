#!/bin/bash
# Offline preparation: builds the library from /repo's tree (the checks rebuild when it changes).
cd "$(dirname "$0")" || exit 3
exec /opt/vp/venv/bin/python lib/wfbuild.py pywrenfold

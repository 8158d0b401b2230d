#!/bin/bash
# Nothing to build ahead: every check rebuilds the custom ops from /repo itself.
cd "$(dirname "$0")" && . /opt/vp/env.sh && python -c "import json; json.load(open('MANIFEST.json'))"

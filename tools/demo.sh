#!/bin/bash
# Run with cwd /repo after a build: exit 0 when the property holds here, nonzero when it is broken.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
exec /usr/bin/python3 "$(dirname "$0")/demo.py"

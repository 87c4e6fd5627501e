#!/bin/sh
# run.sh <property> [options]: decides one property by deterministic simulation
cd "$(dirname "$0")" || exit 2
exec /usr/bin/env python3 -m dst.check "$@"

#!/bin/bash
# Warm the build cache; every check also builds by itself.
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 1
command -v go >/dev/null || exit 1
exit 0

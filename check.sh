#!/bin/bash
# check.sh TIER ID: analyses /repo's current tree for one property.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
if [ ! -x "$here/bin/an" ] || [ -n "$(find "$here/analyzer" -name '*.go' -newer "$here/bin/an" | head -1)" ]; then
	bash "$here/setup.sh" || { echo "VIOLATION property=$2 replay=$here/setup.sh"; exit 1; }
fi
exec "$here/bin/an" -tier "$1" "$2"

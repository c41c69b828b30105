#!/bin/bash
# check.sh PROPERTY: analyses /repo's current tree for one property.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
[ -x "$here/bin/zkcheck" ] || bash "$here/build.sh" >&2 || exit 2
exec "$here/bin/zkcheck" -out "$(dirname "$here")" -property "$@"

#!/bin/bash
# Usage: check.sh <property id>. Analyses /repo's current source for one property.
here=$(cd "$(dirname "$0")" && pwd)
if [ ! -x "$here/bin/idmverify" ]; then
	bash "$here/setup.sh" || exit 2
fi
exec "$here/bin/idmverify" "$@"

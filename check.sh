#!/bin/bash
# ./check.sh <property> [quick|thorough]: decides one property on /repo's
# current tree.  Exit 0: holds; exit 1 with a VIOLATION line: broken.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$here/env.sh"
export VERIF_DIR="$here" VERIF_REPO="${VERIF_REPO:-/repo}"
stale=1
if [ -x "$here/bin/vchk" ]; then
  stale=$(find "$here/checker" -type f -newer "$here/bin/vchk" -print -quit)
fi
if [ -n "$stale" ]; then bash "$here/build.sh" || exit 2; fi
exec "$here/bin/vchk" "$@"

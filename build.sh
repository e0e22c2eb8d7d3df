#!/bin/bash
# Builds the checker into /verif/bin (offline, from the committed sources).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$here/env.sh"
mkdir -p "$here/bin"
cd "$here/checker" || exit 2
exec env GOFLAGS=-mod=mod go build -o "$here/bin/vchk" .

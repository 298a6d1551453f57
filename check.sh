#!/bin/bash
# check.sh PROPERTY: decides one property from the current source of /repo.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
"$here/build.sh" || { echo "cannot build the analyser" >&2; exit 2; }
exec "$here/bin/vstat" -prop "$1" -repo "${VERIF_REPO:-/repo}" -verif "$here"

#!/bin/bash
# build.sh: builds the analyser into bin/
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/bin"
cd "$here" && go build -o bin/vstat ./cmd/vstat

#!/bin/bash
# setup.sh: warms the Go build cache with everything the checks build. Optional: every check builds what it needs.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
tmp="$(mktemp -d /tmp/mcsetup-XXXXXX)" || exit 1
trap 'rm -rf "$tmp"' EXIT
cd "$here/mc" || exit 1
go build -o "$tmp/mc" . && go build -race -o "$tmp/mcrace" .

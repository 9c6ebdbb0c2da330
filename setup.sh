#!/bin/bash
# Warms the Go build cache for the harness (checks rebuild on their own).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/harness" || exit 2
go build ./... || echo "warning: warm-up build failed" >&2
exit 0

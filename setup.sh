#!/bin/bash
# Checks that the framework builds from the committed files, offline.
set -eu
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
cd "$root/harness"
go vet ./...
go build -o /dev/null ./cmd/vmon
echo "setup: the monitors build"

#!/bin/sh
# Warms the build cache; every check builds the driver itself from /repo.
set -e
cd "$(dirname "$0")/driver"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
go build -o "$d/driver" .
go build -race -o "$d/driver-race" .

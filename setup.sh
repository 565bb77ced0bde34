#!/bin/bash
# Offline set-up: builds the framework once from the committed files (warms the Go build cache).
cd "$(dirname "$0")" || exit 3
. ./env.sh
mkdir -p build evidence replay
cd mc && go build -o ../build/core ./cmd/core

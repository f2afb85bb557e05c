#!/bin/bash
# Pre-builds the harness (the checks rebuild what they need from /repo's tree themselves).
. "$(dirname "$0")/env.sh"
cd "$VERIF_DIR/harness" || exit 1
go build ./... && go vet ./vk ./cmd/... >/dev/null 2>&1; go build ./...

#!/bin/bash
# builds the harness once so that the build cache is warm
. /opt/vp/env.sh
cd "$(dirname "$0")/harness" && go build -o /dev/null ./cmd/verif

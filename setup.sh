#!/bin/bash
# Builds the harness once, so that the Go build cache is warm.
cd "$(dirname "$0")/harness" || exit 1
. /opt/vp/env.sh
go build -o /dev/null . 

#!/bin/bash
# developer helper: build and run
. /opt/vp/env.sh
cd /verif/checker && GOFLAGS=-mod=vendor go build -o /verif/bin/osmcheck . && exec /verif/bin/osmcheck "$@"

#!/bin/bash
# compiles the packages once so that later checks find them in the build cache (optional)
. /opt/vp/env.sh
cd /repo && go build ./... >/dev/null 2>&1
exit 0

#!/bin/bash
# Builds the checker from the committed files, offline.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here" && mkdir -p bin && go build -o bin/zkcheck . 

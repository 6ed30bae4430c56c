#!/bin/bash
# builds the verifier from the committed files
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p bin && cd govc && go build -o ../bin/govc . && cd .. && mkdir -p evidence

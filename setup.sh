#!/bin/bash
# builds the symbolic executor (offline, from /verif/engine)
. /opt/vp/env.sh
cd /verif/engine && mkdir -p /verif/bin && go build -o /verif/bin/gosym .

# list failing tests + details
. /opt/vp/env.sh
cd /repo; go test ./... 2>&1 | grep -A${A:-14} "\[FAIL\]\|\[FAILED\]\|--- FAIL" | cut -c1-${W:-260} | head -${N:-120}

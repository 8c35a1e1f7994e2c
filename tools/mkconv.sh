. /opt/vp/env.sh
echo '{"Replace":{"/repo/zz_conv/main.go":"/tmp/conv.go"}}' > /tmp/ov.json
cd ${1:-/repo} && go build -overlay /tmp/ov.json -o ${2:-/tmp/conv} ./zz_conv

#!/bin/bash
# dev.sh OUT [-race]: builds the harness from /repo's working tree (development helper)
. /opt/vp/env.sh
python3 - > /tmp/ov.json <<'P'
import json,glob,os
r={}
for f in glob.glob('/verif/harness/*.go'): r['/repo/internal/zzverif/'+os.path.basename(f)]=f
for f in glob.glob('/verif/harness/porcupine/*.go'): r['/repo/internal/zzporcupine/'+os.path.basename(f)]=f
print(json.dumps({"Replace":r}))
P
cd ${REPO:-/repo} && sed -i "s#/repo/#$PWD/#g" /tmp/ov.json && go build $2 -overlay /tmp/ov.json -o $1 ./internal/zzverif

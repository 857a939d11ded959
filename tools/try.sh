#!/bin/bash
# try.sh SEEDED-ID [PROP]: run a check against a throw-away copy of /repo with the planted change applied
id=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
C=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo/. $C; git -C $C apply /verif/seeded/$id/patch.diff && DST_REPO=$C python3 /verif/dst/check.py $P --no-evidence | tail -2 | cut -c1-${W:-200}; echo "$id $P"; rm -rf "$C"

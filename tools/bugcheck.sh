#!/bin/bash
# bugcheck.sh ID [harness-regex]: runs the property's quick check on a patched copy mounted over /repo
i=$1; D=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
t=$(mktemp -d /tmp/bc.XXXXXX); cp -a /repo "$t/r"; git -C "$t/r" apply "$D/patch.diff"
unshare -Urm bash -c "mount --bind $t/r /repo; cd /verif; timeout 890 ./vf.py $p quick $2 2>&1 | grep -a 'VIOLATION\|HELD\|held\|KNOWN' | cut -c1-200 | head -4; echo $i rc \${PIPESTATUS[0]}"
rm -rf "$t"

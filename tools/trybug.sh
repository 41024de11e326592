#!/bin/bash
# trybug.sh ID [PROP] [TIER]: runs a property's check against a scratch copy of /repo with a planted bug
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
t=$(mktemp -d /tmp/tb.XXXXXX); trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"; git -C "$t/repo" checkout -q -- .
git -C "$t/repo" apply /verif/seeded/$id/patch.diff || exit 9
cd /verif; ev=evidence; cp -a evidence "$t/ev"
GOTOOLCHAIN=local ./bin/govc check -prop $p -tier ${3:-quick} -repo "$t/repo" -verif /verif; rc=$?
cp "$t/ev/$p.json" evidence/ 2>/dev/null
echo "$id $p rc=$rc"

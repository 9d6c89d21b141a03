#!/bin/sh
# bug.sh SEED [run.sh args]: run the property's check against a scratch copy of /repo with the planted change
s=/verif/seeded/$1; id=$1; shift
p=${PROP:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
d=/tmp/bug_$id; rm -rf "$d"; cp -a /repo "$d"; git -C "$d" apply $s/patch.diff || exit 2
cd /verif; SX_REPO=$d SX_EVIDENCE=/tmp/bug_ev_$id ./run.sh $p "$@" >/tmp/bug_$id.out 2>&1; rc=$?
echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/bug_$id.out) $(tail -1 /tmp/bug_$id.out | cut -c1-200)"
rm -rf "$d" "/tmp/bug_ev_$id"

#!/bin/sh
# trybug.sh SEED [run.sh args]: apply a planted change to /repo, run its property's check, undo it
s=/verif/seeded/$1; shift
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
git -C /repo apply $s/patch.diff || exit 2
cd /verif; ./run.sh $p "$@" | cut -c1-300 | tail -6
git -C /repo checkout -- .

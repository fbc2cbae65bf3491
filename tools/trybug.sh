#!/bin/bash
# trybug.sh SEED CHECK...: runs checks (quick) against a scratch copy of /repo with the planted change applied
id=$1; shift
w=/tmp/trybug.$$; cp -a /repo $w; git -C $w apply /verif/seeded/$id/patch.diff || exit 9
for c in "$@"; do
  VERIF_REPO=$w timeout 900 python3 /verif/check.py $c --tier quick > /tmp/trybug.$id.$c.log 2>&1; echo "$id $c rc=$? $(grep -m1 VIOLATION /tmp/trybug.$id.$c.log)"
done
rm -rf $w

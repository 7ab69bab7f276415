#!/bin/bash
# matrix.sh [-a] [seeded ids]: run each planted bug against its own property's check (-a: all checks), in scratch copies
all=""; [ "$1" = "-a" ] && { all=1; shift; }
cd /verif
M=$(mktemp -d /tmp/mx_XXXXXX)
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for b in "${ids[@]}"; do
  rm -rf "$M"; mkdir "$M"; cp -a /repo/. "$M"/
  git -C "$M" apply /verif/seeded/$b/patch.diff || { echo "$b DOES NOT APPLY"; continue; }
  own=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  if [ -n "$all" ]; then list=$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])"); else list=$own; fi
  caught=""
  for p in $list; do
    out=$(RKV_REPO="$M" VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 bash run.sh $p 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then caught="$caught $p"; elif [ $rc != 0 ]; then caught="$caught $p(rc=$rc)"; fi
  done
  case " $caught " in *" $own "*) m=CAUGHT;; *) m=MISSED;; esac
  echo "$m $b own=$own by:$caught"
done
rm -rf "$M"

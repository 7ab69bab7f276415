#!/bin/bash
# redemo.sh ids...: the demos pass on the unchanged tree and fail with their patch
cd /verif; ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for b in "${ids[@]}"; do
  M=$(mktemp -d /tmp/rd_XXXXXX); cp -a /repo/. $M/
  (cd $M; bash /verif/seeded/$b/demo.sh >/dev/null 2>&1); a=$?
  git -C $M apply /verif/seeded/$b/patch.diff || echo "$b does not apply"
  (cd $M; bash /verif/seeded/$b/demo.sh >/dev/null 2>&1); c=$?
  [ $a = 0 ] && [ $c != 0 ] && echo "ok $b" || echo "BAD $b unchanged=$a patched=$c"
  rm -rf "$M"
done

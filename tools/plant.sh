#!/bin/bash
# plant.sh new            : a scratch copy of /repo in /tmp/plant to edit
# plant.sh keep ID PROP NEEDS BREAKS : demo in /tmp/demo.rs; confirms and keeps the change as seeded/ID
# plant.sh check ID [PROP]: does the property's check catch it
set -u
V=/verif
case $1 in
new) rm -rf /tmp/plant; mkdir /tmp/plant; cd /repo && git archive HEAD | tar x -C /tmp/plant; cp -a /repo/.git /tmp/plant/.git; cp /repo/Cargo.lock /tmp/plant/;;
keep)
  id=$2; s=$V/seeded/$id; mkdir -p $s
  cp /tmp/demo.rs $s/demo.rs; grep -q '^mod t;' /tmp/demo.rs && cp $V/tools/t.rs $s/; cp $V/tools/demo.sh $s/demo.sh; chmod +x $s/demo.sh
  git -C /tmp/plant diff > $s/patch.diff
  [ -s $s/patch.diff ] || { echo "EMPTY PATCH"; exit 1; }
  python3 - "$s" "$3" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
  (cd /tmp/plant && $s/demo.sh) >/tmp/demo.out 2>&1; a=$?
  (cd /repo && $s/demo.sh) >/tmp/demo.out2 2>&1; b=$?
  echo "demo: changed=$a (nonzero wanted) unchanged=$b (0 wanted)"; tail -3 /tmp/demo.out; [ $b = 0 ] || tail -5 /tmp/demo.out2
  git -C /tmp/plant checkout -q -- .;;
check)
  id=$2; s=$V/seeded/$id; p=${3:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  git -C /repo apply $s/patch.diff || exit 1
  (cd $V && ./check.sh $p 2>&1 | cut -c1-400 | head -12); 
  git -C /repo checkout -q -- .;;
esac

#!/bin/bash
# tryseed.sh ID [check...]: build, stable tests and demo with and without the change, then the checks with it.
# Works on /repo and undoes the change.
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
x=$(mktemp -d /tmp/demo.XXXXXX); cp -r $d/. $x/; rm -f $x/*.diff $x/meta.json
bash $x/demo.sh > $x/o1 2>&1; a=$?
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > $x/o2 2>&1; b=$?
bash /opt/vp/test.sh $x/t.json > $x/o3 2>&1; t=$?
bash $x/demo.sh > $x/o4 2>&1; c=$?
echo "$id demo clean=$a build=$b tests=$t demo patched=$c"
[ $a = 0 ] || tail -5 $x/o1; [ $b = 0 ] || tail -20 $x/o2; [ $t = 0 ] || tail -20 $x/o3
tail -3 $x/o4
for p in "${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}"; do
  ( cd /verif && timeout 900 python3 check.py $p quick | tail -4; echo "check $p rc=${PIPESTATUS[0]}" )
done
git -C /repo checkout -q -- .
rm -rf "$x"

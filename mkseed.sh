#!/bin/bash
# ./mkseed.sh ID [-t] : verify the planted change seeded/ID in a scratch copy:
# demo passes without it, fails with it, stable tests pass (-t) and the check
# of its property catches it (run against the copy by VERIF_REPO).
id=$1; d=/verif/seeded/$id
pid=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/seed_XXXXXX); cp -a /repo $w/repo; cd $w/repo
run_demo() { (cd $w/repo && PATH=/opt/venv/bin:$PATH timeout 300 bash $d/demo.sh >$w/demo.log 2>&1; echo $?); }
echo "demo clean: $(run_demo)"
git apply $d/patch.diff || echo "PATCH FAILED"
if git diff --name-only | grep -qE '\.(c|h|pyx|pxd)$'; then
  rm -rf $w/repo/_skbuild;   sed "s#/repo#$w/repo#g" /opt/vp/common.sh > $w/common.sh; sed "s#/repo#$w/repo#g;s#/opt/vp/common.sh#$w/common.sh#" /opt/vp/build.sh > $w/build.sh; bash $w/build.sh > $w/build.log 2>&1 || tail -3 $w/build.log
fi
echo "demo patched: $(run_demo)"; tail -2 $w/demo.log
cd /verif; VERIF_REPO=$w/repo ./check $pid 2>&1 | tail -2 | cut -c1-300
if [ "$2" = -t ]; then
  mkdir $w/cwd $w/output; cd $w/cwd
  PYTHONPATH=$w/repo PATH=/opt/venv/bin:$PATH /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -n 8 -W ignore --basetemp=$w/bt --output-dir=$w/output $w/repo/sfepy/tests 2>&1 | grep -E "^(FAILED|ERROR)|passed|failed" | tail -5
fi
cd /tmp; rm -rf "$w"

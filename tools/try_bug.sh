#!/bin/bash
# try_bug.sh <seeded id> [check ids...]: apply a planted bug in a scratch copy; tests, demo, checks (development only)
set -u
id=$1; shift; dir=/verif/seeded/$id; w=$(mktemp -d /tmp/bug_$id.XXXX)
cp -a /repo $w/repo; cd $w/repo
git apply $dir/patch.diff || { echo "APPLY FAILED"; rm -rf "$w"; exit 3; }
p=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
cp -a $dir $w/demo; 
( cd /repo && bash $w/demo/demo.sh >$w/d0 2>&1 ); a=$?
( cd $w/repo && TF_REPO=$w/repo bash $w/demo/demo.sh >$w/d1 2>&1 ); b=$?
echo "$id: demo clean=$a patched=$b"; [ $a != 0 ] && tail -5 $w/d0; [ $b = 0 ] && tail -5 $w/d1
if [ "${TESTS:-1}" = 1 ]; then ( cd $w/repo && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$w/repo:$w/repo/termfactory timeout 300 /opt/venv/bin/python -m pytest -q -x tests/deep tests/blanket/blanket_test.py tests/theory_check -p no:cacheprovider 2>&1 | tail -4 ); fi
for c in ${*:-$p}; do VMON_REPO=$w/repo VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python /verif/run_check.py $c > $w/o 2>&1; echo "  $c exit=$? $(grep -m1 -v KNOWN $w/o | cut -c1-220)"; done
rm -rf "$w"

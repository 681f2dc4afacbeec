#!/bin/bash
# tools/seed.sh ID PROPERTY : turns the edit made in /tmp/wt (worktree of /repo HEAD) and the
# demonstration /tmp/demo.py into seeded/ID, after confirming it; NEEDS and BREAKS describe it.
set -u
ID=$1; P=$2
WT=/tmp/wt
D=/verif/seeded/$ID
mkdir -p $D
git -C $WT diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cp /tmp/demo.py $D/demo.py; cp /verif/tools/demolib.py $D/demolib.py
cat > $D/demo.sh <<'X'
#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2
exec env PYTHONPATH="$HERE" /opt/venv/bin/python -W ignore "$HERE/demo.py"
X
chmod +x $D/demo.sh
python3 -c "import json,sys; json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open(sys.argv[4],'w'),indent=1)" "$P" "$NEEDS" "$BREAKS" $D/meta.json
(cd /repo && timeout 300 $D/demo.sh >/tmp/demo.ok 2>&1); a=$?
(cd $WT && timeout 300 $D/demo.sh >/tmp/demo.bad 2>&1); b=$?
echo "demo: unchanged=$a patched=$b"; tail -2 /tmp/demo.bad
if [ $a -ne 0 ]; then tail -5 /tmp/demo.ok; fi
# stable tests on the patched code
W=/tmp/wt_test; mkdir -p $W
(cd $WT && rm -rf /tmp/wt_root && mkdir -p /tmp/wt_root && printf '/tmp/wt_root\ny\n' | PYTHONPATH=$WT MPLBACKEND=Agg timeout 120 /opt/venv/bin/python -c 'import simim; assert simim.__file__.startswith("/tmp/wt"); from simim import setupsimim; setupsimim()' >/dev/null
 PYTHONPATH=$WT MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=$W/junit.xml tests </dev/null >$W/log 2>&1; tail -1 $W/log; git clean -fdq; rm -f simim/resources/rootpath.txt)
python3 /opt/vp/results.py $W/out.json "junit:$W/junit.xml" >/dev/null
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/wt_test/out.json'))['passed']
print('stable tests lost:', sorted(set(b)-set(o)))
X
git -C /repo apply --check $D/patch.diff && echo applies
# does the check see it?
(cd /verif && SIMIM_REPO=$WT ./run.sh $P quick | cut -c1-300 | tail -3)
git -C $WT checkout -q -- .

"""Authoring/confirming tool for planted bugs (never used by a check).

plant.py new SPEC.py     : SPEC.py defines SEEDS = [dict(id, property, file, old, new, needs, what, demo)];
                           writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}
plant.py run ID [PIDs..] : in a private mount namespace, with a scratch copy bound over /repo: demo on the clean
                           tree, patch, stable tests, demo, the check of the property (and PIDs)
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
. /opt/vp/support/env.sh
export PYTHONPATH="$PWD:/opt/vp/support"
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def new(spec):
  ns = {}
  exec(open(spec).read(), ns)
  for s in ns['SEEDS']:
    if len(sys.argv) > 3 and s['id'] not in sys.argv[3:]: continue
    d = os.path.join(HERE, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
    edits = s['edits'] if 'edits' in s else [(s['file'], s['old'], s['new'])]
    for f, old, new_ in edits:
      p = os.path.join(tmp, 'r', f)
      t = open(p).read()
      assert t.count(old) == 1, (s['id'], f, t.count(old))
      open(p, 'w').write(t.replace(old, new_))
    diff = subprocess.check_output(['git', '-C', tmp + '/r', 'diff'], text=True)
    shutil.rmtree(tmp)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)

INNER = r'''
set -u
mount --bind "$TMP/r" /repo
cd /repo
bash "$TMP/s/demo.sh" >$TMP/demo0.log 2>&1; echo "demo clean rc=$?"; [ "${DEMO_V:-}" ] && tail -5 $TMP/demo0.log
git apply "$TMP/patch.diff" || echo APPLY FAILED
bash "$TMP/s/demo.sh" >$TMP/demo1.log 2>&1; echo "demo patched rc=$?"; tail -2 $TMP/demo1.log
if [ -z "${NOTEST:-}" ]; then
bash /opt/vp/test.sh $TMP/out.json >/dev/null 2>&1
/usr/bin/python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('$TMP/out.json'))
p=set(r['passed']); m=[t for t in b if t not in p]; print('tests missing', len(m), m[:5])"
fi
for p in $PIDS; do (cd /verif && bash run.sh $p quick 2>&1 | tail -8 | cut -c1-400; echo "check $p rc=${PIPESTATUS[0]}"); done
'''

def run(i, pids):
  tmp = tempfile.mkdtemp(prefix='plant_')
  try:
    d = os.path.join(HERE, 'seeded', i)
    subprocess.check_call(['cp', '-a', '/repo', tmp + '/r'])
    shutil.copytree(d, tmp + '/s')
    os.remove(tmp + '/s/patch.diff'); os.remove(tmp + '/s/meta.json')
    shutil.copy(d + '/patch.diff', tmp)
    meta = json.load(open(d + '/meta.json'))
    print('===', i, meta['property'], flush=True)
    subprocess.call(['unshare', '-m', 'bash', '-c', INNER], env=dict(os.environ, TMP=tmp, PIDS=' '.join(pids or [meta['property']])))
  finally:
    shutil.rmtree(tmp)

if sys.argv[1] == 'new': new(sys.argv[2])
else: run(sys.argv[2], sys.argv[3:])

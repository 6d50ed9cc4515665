"""Batch of changes against the checks (authoring tool, never used by a check).

mut.py SPEC.py [ids] : SPEC.py defines M = [dict(id, kind='bug'|'same', file, old, new | edits=[(file, old, new)], checks=[PIDs])].
Each runs in private copies of /repo and /verif bound over the real paths. Prints expected/actual.
JOBS parallel (default 3); TESTS=1 also runs the stable tests.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
INNER = r'''
set -u
mount --bind "$TMP/r" /repo; mount --bind "$TMP/v" /verif
cd /repo
if [ -n "${TESTS:-}" ]; then
bash /opt/vp/test.sh $TMP/out.json >/dev/null 2>&1
/usr/bin/python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('$TMP/out.json'))
p=set(r['passed']); m=[t for t in b if t not in p]; print('TESTS missing', len(m), m[:3])"
fi
for p in $PIDS; do (cd /verif && bash run.sh $p quick > $TMP/log 2>&1; echo "RC $p $?"; grep -E 'VIOLATION|undecided|Error' $TMP/log | tail -14 | cut -c1-330); done
'''

def one(m):
  tmp = tempfile.mkdtemp(prefix='mut_', dir='/tmp/w')
  try:
    subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
    for f, old, new in m.get('edits') or [(m['file'], m['old'], m['new'])]:
      p = os.path.join(tmp, 'r', f)
      t = open(p).read()
      if t.count(old) != 1: return m, f'BAD SPEC {f} count={t.count(old)}'
      open(p, 'w').write(t.replace(old, new))
    subprocess.check_call(['rsync', '-a', '--exclude', '.git', '--exclude', 'seeded', '/verif/', tmp + '/v/']) if shutil.which('rsync') else shutil.copytree('/verif', tmp + '/v', ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
    env = dict(os.environ, TMP=tmp, PIDS=' '.join(m['checks']))
    r = subprocess.run(['unshare', '-m', 'bash', '-c', INNER], env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return m, r.stdout
  finally: shutil.rmtree(tmp, ignore_errors=True)

def main():
  ns = {}
  exec(open(sys.argv[1]).read(), ns)
  ms = [m for m in ns['M'] if not sys.argv[2:] or m['id'] in sys.argv[2:]]
  bad = []
  with ThreadPoolExecutor(int(os.environ.get('JOBS', 3))) as ex:
    for m, out in ex.map(one, ms):
      rcs = [int(l.split()[2]) for l in out.splitlines() if l.startswith('RC ')]
      ok = rcs and (any(r == 1 for r in rcs) if m['kind'] == 'bug' else all(r == 0 for r in rcs))
      if not ok: bad.append(m['id'])
      print(f"{'ok ' if ok else 'BAD'} {m['kind']} {m['id']}\n  " + out.strip().replace('\n', '\n  '), flush=True)
  print('BAD:', bad)
main()

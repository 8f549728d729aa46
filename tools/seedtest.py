#!/usr/bin/env python3
"""seedtest.py ID...: try planted bugs in a private copy of /repo (bind-mounted over it in a mount
namespace of its own): build, tests, demonstration, and the check of the property (or --checks A,B)."""
import sys, os, subprocess, json, shutil, tempfile, time
V = '/verif'

INNER = r'''
set -u
id=$1; dir=$2; work=$3; checks=$4; notest=$5
mount --bind $work/repo /repo || exit 90
cd /repo
git checkout -q -- . 
if [ "$id" != none ]; then
 git apply --check $dir/patch.diff || { echo "RESULT apply failed"; exit 91; }
 git apply $dir/patch.diff
fi
t=$SECONDS
if [ $notest = 0 ]; then
 bash /opt/vp/build.sh > $work/build.log 2>&1 || { echo "RESULT build failed"; grep -m5 error $work/build.log; exit 92; }
 flock /tmp/seedtest.lock bash /opt/vp/test.sh $work/out.json > $work/test.log 2>&1
 python3 - $work/out.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
bad=[x for x in b if x not in o['passed']]
print('RESULT tests', 'ok' if not bad else 'FAIL %s' % bad[:5])
P
 d=$(mktemp -d $work/demo.XXXX); cp $dir/* $d/; rm -f $d/*.diff $d/meta.json
 (cd /repo && timeout 300 bash $d/demo.sh > $work/demo.log 2>&1); echo "RESULT demo $?"
 tail -3 $work/demo.log
fi
export VERIF_BUILD=$work/vbuild VERIF_EVIDENCE=$work/evidence VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
for c in $checks; do
 t=$SECONDS
 (cd /verif && timeout 900 python3 run.py check $c > $work/check.$c.log 2>&1); rc=$?
 echo "RESULT check $c exit $rc in $((SECONDS-t)) s: $(grep -m1 VIOLATION $work/check.$c.log)"
 [ $rc = 0 ] || head -c 1500 $work/check.$c.log
done
'''

def main():
    args = sys.argv[1:]
    checks = None
    notest = '0'
    ids = []
    while args:
        a = args.pop(0)
        if a == '--checks':
            checks = args.pop(0).replace(',', ' ')
        elif a == '--notest':
            notest = '1'
        else:
            ids.append(a)
    for i in ids:
        d = f'{V}/seeded/{i}' if not i.startswith('/') else i
        name = os.path.basename(d)
        ch = checks
        if ch is None:
            ch = json.load(open(d + '/meta.json'))['property']
        w = tempfile.mkdtemp(prefix='st.' + name + '.', dir='/tmp')
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        if os.path.isdir('/verif/build/obj'):
            pass
        t = time.time()
        p = subprocess.run(['unshare', '-m', 'bash', '-c', INNER, 'x', name, d, w, ch, notest], capture_output=True, text=True)
        print(f'== {name} ({time.time()-t:.0f} s)\n' + p.stdout + p.stderr, flush=True)
        os.makedirs('/tmp/st.results', exist_ok=True)
        open(f'/tmp/st.results/{name}', 'w').write(p.stdout + p.stderr)
        shutil.rmtree(w, ignore_errors=True)

main()

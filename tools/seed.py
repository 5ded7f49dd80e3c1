"""Create and verify planted bugs.  usage: seed.py SPEC.py [ids...]
SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], demo=str)]
Only used by hand; no check reads /verif/seeded."""
import json, os, subprocess, sys, tempfile, shutil, runpy
REPO = '/repo'; OUT = '/verif/seeded'; PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
exec timeout 250 "$py" "$here/demo.py"
'''

def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout

def demo(d, work):
    return sh('bash %s/demo.sh' % d, cwd=work)

def make(b):
    d = os.path.join(OUT, b['id'])
    if 'demo' in b:
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
    work = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    res = []
    try:
        sh('cp -a /repo/. %s/' % work)
        rc, o = demo(d, work)
        res.append('clean demo rc=%d' % rc)
        if rc: res.append(o[-800:])
        if 'edits' in b:
            for e in b['edits']:
                f, old, new = e[:3]; nth = e[3] if len(e) > 3 else 0
                p = os.path.join(work, f); s = open(p).read()
                i = -1
                for _ in range(nth + 1):
                    i = s.find(old, i + 1)
                    assert i >= 0, ('not found', f, old)
                open(p, 'w').write(s[:i] + new + s[i + len(old):])
            rc, diff = sh('git diff', cwd=work)
            open(d + '/patch.diff', 'w').write(diff)
        else:
            rc, o = sh('git apply %s/patch.diff' % d, cwd=work); assert rc == 0, o
            diff = open(d + '/patch.diff').read()
        # removed lines must be original ones
        cur = None; n = 0
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                cur = subprocess.run(['git', '-C', REPO, 'show', '610f05d:' + l[6:]], capture_output=True, text=True).stdout.split('\n')
            elif l.startswith('-'):
                if l[1:] in cur: n += 1
                else: res.append('NOT ORIGINAL: ' + l)
        res.append('%d original lines changed' % n)
        rc, o = demo(d, work)
        res.append('bug demo rc=%d' % rc + ('' if rc else ' !!! demo passes'))
        res.append('   ' + (o.strip().split('\n') or [''])[-1][:200])
        rc, o = sh(PY + ' -m pytest -q -x tests 2>&1 | tail -3', cwd=work, env={'PYTHONPATH': work, 'MPLBACKEND': 'Agg'})
        res.append('tests: ' + o.strip().split('\n')[-1])
        if not os.environ.get('NOCHECK'):
            rc, o = sh('timeout 900 python3 run.py check %s' % b['property'], cwd='/verif',
                       env={'DST_REPO': work, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            lines = [l for l in o.split('\n') if l.strip()]
            v = [l for l in lines if l.startswith('VIOLATION')]
            res.append('CHECK rc=%d %s' % (rc, 'CAUGHT' if rc == 1 and v else '!!! MISSED') + ' | ' + ' / '.join(l[:160] for l in lines[-4:]))
    finally:
        if work.startswith('/tmp/seed'): shutil.rmtree(work)
    print('=' * 10, b['id']); print('\n'.join(res), flush=True)

if __name__ == '__main__':
    spec = sys.argv[1]; ids = sys.argv[2:]
    if spec == '-':
        bugs = [dict(id=i, property=json.load(open('%s/%s/meta.json' % (OUT, i)))['property'])
                for i in (ids or sorted(os.listdir(OUT)))]
    else:
        bugs = [b for b in runpy.run_path(spec)['BUGS'] if not ids or b['id'] in ids]
    for b in bugs:
        try: make(b)
        except Exception as e: print('=' * 10, b['id'], 'ERROR', repr(e)[:600], flush=True)

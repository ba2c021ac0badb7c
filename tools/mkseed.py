"""Create and confirm planted changes from a description file.

usage: mkseed.py DESCRIPTION.py [ID ...]
DESCRIPTION.py defines SEEDS, a list of dict(id, property, edits=[(file, old, new)], needs, breaks, demo).
For each one a scratch copy of /repo is changed, built, tested and the demonstration is run on both trees; only a
change that passes all of this is written to /verif/seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys, tempfile
DEMO_SH = '#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n'
BASE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True)


def make(s):
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        sh('cp -a /repo/. %s/' % d, '/')
        sh('git checkout -q -- .', d)
        out = os.path.join(d, '.seedout'); os.mkdir(out)
        open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        r = sh('bash .seedout/demo.sh', d)
        if r.returncode: return 'demo fails on the unchanged tree: ' + r.stdout + r.stderr
        for f, old, new in s['edits']:
            p = os.path.join(d, f); t = open(p).read()
            if t.count(old) != 1: return 'edit of %s matches %d times: %r' % (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', d).stdout
        if sh('python3 -m compileall -q lib proofchains sus-tool.py', d).returncode: return 'does not compile'
        r = sh('bash .seedout/demo.sh', d)
        if not r.returncode: return 'demo passes with the change'
        failed = tests(d)
        if failed: return 'tests notice it: %s' % failed[:4]
        dst = '/verif/seeded/' + s['id']
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(diff)
        shutil.copy(out + '/demo.py', dst); shutil.copy(out + '/demo.sh', dst)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        return None
    finally:
        shutil.rmtree(d)


def tests(d):
    """Run the repository's tests in the copy by pointing the test script's repository path at it."""
    script = open('/opt/vp/test.sh').read().replace('/repo', d)
    open(d + '/.t.sh', 'w').write(script)
    r = sh('bash .t.sh %s/.out.json' % d, d)
    try: res = json.load(open(d + '/.out.json'))
    except OSError: return ['test run failed: ' + r.stdout[-500:] + r.stderr[-500:]]
    stable = BASE['passed'] if 'passed' in BASE else BASE.get('stable', [])
    return [t for t in stable if t not in res.get('passed', [])]


if __name__ == '__main__':
    for s in runpy.run_path(sys.argv[1])['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
        e = make(s)
        print(s['id'], 'OK' if e is None else 'REJECTED ' + e, flush=True)

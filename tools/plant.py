#!/usr/bin/env python3
'''
Authoring aid: verifies one planted bug in a scratch copy of /repo.

    plant.py <id> [--nocheck]

Expects /verif/seeded/<id>/edit.json (list of [file, old, new]) or an existing patch.diff,
demo.py and meta.json. Creates patch.diff and demo.sh, verifies that the patch applies to
HEAD, that the stable tests pass with it, that the demo passes without and fails with it,
and reports what the check of the property says.
'''
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise; runs with cwd = the repository
. /opt/vp/env.sh
export PYTHONPATH="$PWD"
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
cd "$D"
timeout 250 python "$HERE/demo.py"
rc=$?
rm -rf "$D"
exit $rc
'''


def sh(cmd, cwd, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    bug = sys.argv[1]
    d = os.path.join(VERIF, 'seeded', bug)
    work = tempfile.mkdtemp(prefix='plant_', dir='/tmp/w')
    copy = os.path.join(work, 'repo')
    try:
        sh('cp -a /repo %s && git -C %s checkout -q -- .' % (copy, copy), '/')
        edit = os.path.join(d, 'edit.json')
        edit_py = os.path.join(d, 'edit.py')
        if os.path.exists(edit_py):
            ns = {}
            exec(open(edit_py).read(), ns)
            for f, old, new in ns['EDITS']:
                path = os.path.join(copy, f)
                text = open(path).read()
                if text.count(old) != 1:
                    print('EDIT matches %d times: %s' % (text.count(old), old))
                    return 1
                open(path, 'w').write(text.replace(old, new))
            _, diff = sh('git diff', copy)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            sh('git checkout -q -- .', copy)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        pid = meta['property']
        assert meta['needs'] and meta['what_it_breaks']
        bad = 0
        rc, out = sh('bash %s/demo.sh' % d, copy)
        if rc != 0:
            bad = 1
            print(bug, 'DEMO FAILS UNPATCHED', out[-1500:])
        rc, out = sh('git apply %s/patch.diff' % d, copy)
        if rc != 0:
            print(bug, 'PATCH DOES NOT APPLY', out)
            return 1
        rc, out = sh('bash %s/demo.sh' % d, copy)
        if rc == 0:
            bad = 1
            print(bug, 'DEMO PASSES PATCHED')
        else:
            print(bug, 'demo:', out.strip().splitlines()[-1:] if out.strip() else '')
        rc, out = sh('. /opt/vp/env.sh; PYTHONPATH=$PWD python -m pytest -q -p no:cacheprovider '
                     '--junitxml=%s/j.xml spta' % work, copy)
        m = re.search(r'(\d+) failed, (\d+) passed', out)
        fails = re.findall(r'^FAILED (\S+)', out, re.M)
        extra = [f for f in fails if 'test_train_input' not in f]
        if extra or not m or int(m.group(2)) < 116:
            bad = 1
            print(bug, 'TESTS', out[-600:])
        if '--nocheck' not in sys.argv:
            rc, out = sh('python3 harness/run.py %s --tier quick' % pid, VERIF,
                         {'VERIF_REPO': copy, 'VERIF_SEED': '1'})
            lines = [l for l in out.splitlines() if 'VIOLATION' in l or 'mechanism' in l]
            print(bug, pid, 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc, lines[:2])
            if rc not in (0, 1):
                print(out[-1500:])
        print(bug, 'BAD' if bad else 'valid')
        return bad
    finally:
        shutil.rmtree(work)


sys.exit(main())

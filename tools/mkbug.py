'''Make and confirm a planted bug:  python3 tools/mkbug.py SPEC.py [--no-check]

SPEC.py defines id, property, needs, breaks, edits = [(file, old, new), ...] and demo (text of demo.py).
Everything happens in a scratch copy of /repo, which is removed; the result is kept in seeded/<id>/.
python3 tools/mkbug.py --again ID: confirm an existing one against the current /repo and run its check.
'''
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def run(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, MPLBACKEND='Agg', **env)
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, (p.stdout + p.stderr)


def main():
    args = sys.argv[1:]
    check = '--no-check' not in args
    args = [a for a in args if a != '--no-check']
    S = {}
    if args[0] == '--again':
        bid = args[1]
        S['property'] = json.load(open(os.path.join(VERIF, 'seeded', bid, 'meta.json')))['property']
    else:
        exec(open(args[0]).read(), S)
        bid = S['id']
    d = os.path.join(VERIF, 'seeded', bid)
    copy = '/tmp/plant-' + bid
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', copy])
    ok = True
    try:
        if 'edits' in S:
            files = set()
            for f, old, new in S['edits']:
                p = os.path.join(copy, f)
                s = open(p, newline='').read()
                if '\r\n' in s:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if s.count(old) != 1:
                    print('EDIT matches %d times: %s' % (s.count(old), old))
                    return 1
                # only original lines may change
                open(p, 'w', newline='').write(s.replace(old, new))
                files.add(f)
            os.makedirs(d, exist_ok=True)
            patch = subprocess.check_output(['git', 'diff'], cwd=copy)
            open(os.path.join(d, 'patch.diff'), 'wb').write(patch)
            for f in files:
                blame = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', f]).decode('utf8', 'replace').splitlines()
                out = subprocess.check_output(['git', 'diff', '-U0', f], cwd=copy).decode('utf8', 'replace')
                for l in out.splitlines():
                    if l.startswith('@@'):
                        a = l.split()[1][1:]
                        start, n = (a.split(',') + ['1'])[:2]
                        for k in range(int(start), int(start) + int(n)):
                            if not blame[k - 1].startswith('^'):
                                print('NOT ORIGINAL:', blame[k - 1])
            open(os.path.join(d, 'demo.py'), 'w').write(S['demo'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# exit 0: the property holds for this case\nexport MPLBACKEND=Agg PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({'property': S['property'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        else:
            subprocess.check_call(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=copy)
        changed = subprocess.check_output(['git', 'diff', '--name-only'], cwd=copy, text=True)
        if 'cpp/' in changed:
            rc, out = run([PY, 'setup.py', 'build_ext', '--inplace', '--force'], copy)
            if rc:
                print('BUILD FAILED', out[-1500:])
                return 1
        demo = ['bash', os.path.join(d, 'demo.sh')]
        rc, out = run(demo, copy, 300)
        print(bid, 'demo patched: rc=%d' % rc, out.strip().splitlines()[-1:] )
        ok &= rc != 0
        rc, out = run(demo, '/repo', 300)
        print(bid, 'demo clean: rc=%d' % rc, out.strip().splitlines()[-1:] if rc else '')
        ok &= rc == 0
        rc, out = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'test_analysis_utils.py', 'test_geometry_utils.py'], os.path.join(copy, 'beam_telescope_analysis', 'testing'), PYTHONPATH=copy)
        n = [l for l in out.splitlines() if 'passed' in l or 'failed' in l][-1:]
        print(bid, 'tests:', n)
        if check:
            rc, out = run([PY, '-m', 'mc', S['property']], VERIF, 900, BTA_REPO=copy)
            print(bid, 'check rc=%d' % rc, '\n'.join(l[:300] for l in out.splitlines()[:3]))
    finally:
        shutil.rmtree('/tmp/plant-' + bid, ignore_errors=True)
    print(bid, 'CONFIRMED' if ok else 'NOT CONFIRMED')
    return 0 if ok else 1


sys.exit(main())

'''python -m mc <property> [--replay FILE]      (tier from VERIF_TIER, default quick)'''
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

from mc import overlay

VERIF = overlay.VERIF


def known_findings(prop):
    keys = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys


def main(argv):
    prop = argv[0]
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else '-'
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    limit = 820 if tier == 'quick' else 6 * 3600
    t0 = time.time()
    out = {}
    log = ''
    try:
        src = overlay.prepare()
    except Exception as e:
        out = {'violations': [{'key': 'build', 'msg': 'the package does not build: %s' % e, 'data': {}, 'case': None}]}
    else:
        with tempfile.TemporaryDirectory(prefix='bta_mc_run_') as tmp:
            result = os.path.join(tmp, 'result.json')
            with open(os.path.join(tmp, 'log'), 'wb') as logf:
                p = subprocess.Popen([overlay.PY, os.path.join(VERIF, 'mc', 'child.py'), prop, tier, src, result, replay],
                                     cwd=tmp, env=dict(overlay.build_env(os.path.join(src, '.numba')), TMPDIR=tmp), stdout=logf, stderr=subprocess.STDOUT,
                                     start_new_session=True)
                timed_out = False
                try:
                    p.wait(timeout=limit - (time.time() - t0))
                except subprocess.TimeoutExpired:
                    timed_out = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            log = open(os.path.join(tmp, 'log'), errors='replace').read()[-3000:]
            if os.path.exists(result):
                out = json.load(open(result))
            elif timed_out:
                out = {'violations': [{'key': 'no-termination', 'msg': 'exploration did not terminate within %d s (typical: under 2 minutes): the code under test hangs\n%s' % (limit, log), 'data': {}, 'case': None}]}
            else:
                out = {'violations': [{'key': 'process-died', 'msg': 'the exploring process died with status %s\n%s' % (p.returncode, log), 'data': {}, 'case': None}]}
    known = known_findings(prop)
    reported = {}
    n_viol = 0
    for v in out.get('violations', []):
        if v['key'] in known:
            reported.setdefault(v['key'], v)
            continue
        n_viol += 1
        if n_viol <= 5:
            rdir = os.path.join(VERIF, 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%d.json' % (prop, n_viol))
            with open(path, 'w') as f:
                json.dump(dict(v, property=prop, tier=tier), f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  key=%s' % v['key'])
            print('  ' + v['msg'][:1500].replace('\n', '\n  '))
    for k in sorted(reported):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    wall = time.time() - t0
    samples = out.get('samples') or [{'note': 'no sample recorded'}]
    level = out.get('level', 'model_checking')
    cov = dict(states=out.get('states', 0), transitions=out.get('transitions', 0),
               traces_validated_against_impl=out.get('traces', 0), samples=samples,
               distinct_observed_outcomes=out.get('outcomes', 0), bounds=out.get('bounds', ''),
               counters=out.get('extra', {}), exhaustive=bool(out.get('exhaustive', False)) and n_viol == 0,
               rule=out.get('rule', ''))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=out.get('assumptions', []),
              wall_s=round(wall, 2), violations=n_viol)
    if replay == '-':
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s: states=%d transitions=%d traces=%d outcomes=%d violations=%d known=%d %.1f s %s' % (
        prop, tier, cov['states'], cov['transitions'], cov['traces_validated_against_impl'],
        cov['distinct_observed_outcomes'], n_viol, len(reported), wall, json.dumps(out.get('extra', {}))))
    return 1 if n_viol else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

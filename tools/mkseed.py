"""Write and validate planted changes.

usage: mkseed.py DEFS.py [ID...]     DEFS.py defines SEEDS: list of dicts
   id, property, edits [(file, old, new)...], demo (python source), needs, breaks
Validates in a scratch copy of /repo's working tree, never in /repo: the patch applies, touches original lines only, the stable
tests pass, the demo passes without and fails with it; then says whether the property's check reports it.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

SEEDED = '/verif/seeded'
PY = '/opt/venv/bin/python'
HELP = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demo_help.py')).read()
DEMO_SH = '''#!/bin/sh
# exit 0 when the behaviour holds
exec timeout 120 env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original_only(diff, d):
    """every removed line stems from the first commit"""
    base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[-1]
    bad = []
    f = None
    old = 0
    removed = 0
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            f = line[6:]
            blame = [l.split(' ')[0].lstrip('^') for l in
                     sh('git -C /repo blame -l -s HEAD -- %s' % f).stdout.split('\n')]
        elif line.startswith('@@'):
            old = int(line.split('-')[1].split(',')[0].split(' ')[0])
        elif line.startswith('-') and not line.startswith('---'):
            removed += 1
            if not base.startswith(blame[old - 1][:39]):
                bad.append((f, old, line))
            old += 1
        elif line.startswith(' '):
            old += 1
    return bad, removed


def one(s):
    out = os.path.join(SEEDED, s['id'])
    w = '/tmp/seedwork_' + s['id']
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w)
    msg = []
    try:
        for f, old, new in s['edits']:
            p = os.path.join(w, 'nessaid_cli', f)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], 'EDIT: %d matches for %r' % (t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % w).stdout
        bad, removed = original_only(diff, w)
        if bad or not removed:
            return s['id'], 'NOT ORIGINAL: %s' % (bad[:3] or 'only insertions')
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(out + '/demo_help.py', 'w').write(HELP)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        a = sh('sh %s/demo.sh' % out, cwd='/repo')
        b = sh('sh %s/demo.sh' % out, cwd=w)
        if a.returncode != 0:
            msg.append('DEMO FAILS UNCHANGED: ' + (a.stdout + a.stderr)[-300:])
        if b.returncode == 0:
            msg.append('DEMO PASSES PATCHED')
        t = sh('env PYTHONDONTWRITEBYTECODE=1 TERM=dumb PYTHONPATH=%s timeout 100 %s -m pytest -q -p no:cacheprovider nessaid_cli_tests </dev/null' % (w, PY), cwd=w)
        tail = t.stdout.strip().split('\n')[-1]
        if t.returncode != 0:
            msg.append('TESTS: %s' % tail)
        c = sh('python3 /verif/check.py --property %s --repo %s --no-evidence' % (s['property'], w), timeout=900)
        msg.append('check rc %d %s' % (c.returncode, 'caught' if c.returncode == 1 else '*** MISSED: ' + (c.stdout + c.stderr)[-200:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return s['id'], '; '.join(msg)


def main():
    spec = importlib.util.spec_from_file_location('defs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    from concurrent.futures import ThreadPoolExecutor
    todo = [s for s in m.SEEDS if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(one, todo):
            print(i, '|', r)


main()

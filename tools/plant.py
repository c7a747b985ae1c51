"""Confirm planted bugs and see which checks catch them.

usage: plant.py make DEFS.py [ID...]   write seeded/ID from definitions, confirm
       plant.py run [--checks PID,..|own|all] [ID...]   run checks on seeded bugs

Works on copies of /repo below /tmp/plant, each removed afterwards.
A definition file has BUGS = [dict(id, property, edits=[(file, old, new)],
needs, breaks, demo)].
"""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
unset XYLEM_DIR XYLEM_PREFIX ROSDEP_OS_OVERRIDE
export HOME="$scratch" TMPDIR="$scratch" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore "$here/demo.py" "$scratch"
'''


def copy(name):
    path = os.path.join('/tmp/plant', name)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    shutil.copytree('/repo', path, symlinks=True)
    return path


def stable(path):
    junit = path + '.xml'
    env = dict(os.environ, PYTHONPATH=path, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               LANG='C.UTF-8')
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'junit_family=xunit2',
                    '--continue-on-collection-errors', '--junitxml=' + junit, 'test'], cwd=path,
                   env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = set()
    for case in ET.parse(junit).iter('testcase'):
        if not [c for c in case if c.tag in ('failure', 'error', 'skipped')]:
            ok.add('%s::%s' % (case.get('classname'), case.get('name')))
    os.unlink(junit)
    return STABLE - ok


def demo(path, folder):
    r = subprocess.run(['sh', os.path.join(folder, 'demo.sh')], cwd=path, timeout=300,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace')
    return r.returncode, r.stdout


def make(bug):
    ident = bug['id']
    path = copy(ident)
    msgs = []
    try:
        folder = os.path.join(SEEDED, ident)
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(folder, 'demo.py'), 'w').write(bug['demo'].lstrip('\n'))
        code, out = demo(path, folder)
        if code:
            msgs.append('demo fails unpatched: %d\n%s' % (code, out[-1500:]))
        for fname, old, new in bug['edits']:
            f = os.path.join(path, fname)
            text = open(f, encoding='utf-8').read()
            if text.count(old) != 1:
                return ident, ['%s: %d matches of %r' % (fname, text.count(old), old)]
            open(f, 'w', encoding='utf-8').write(text.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=path, text=True)
        open(os.path.join(folder, 'patch.diff'), 'w').write(diff)
        json.dump({'property': bug['property'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']},
                  open(os.path.join(folder, 'meta.json'), 'w'), indent=1)
        # lines of commits since the original must not be the changed ones
        bad = stable(path)
        if bad:
            msgs.append('stable tests fail: %s' % sorted(bad))
        code, out = demo(path, folder)
        if code == 0:
            msgs.append('demo passes patched')
        elif 'demo:' not in out and not bug.get('raises'):
            msgs.append('patched demo fails oddly:\n' + out[-1500:])
    finally:
        shutil.rmtree(path, ignore_errors=True)
    return ident, msgs


def run(ident, checks):
    path = copy('run-' + ident)
    own = json.load(open(os.path.join(SEEDED, ident, 'meta.json')))['property']
    res = {}
    try:
        subprocess.check_call(['git', 'apply', os.path.join(SEEDED, ident, 'patch.diff')], cwd=path)
        pids = [own] if checks == 'own' else checks
        for pid in pids:
            r = subprocess.run([os.path.join(HERE, 'check'), pid, '--no-evidence'], cwd=HERE,
                               env=dict(os.environ, XYLEM_REPO=path), text=True, errors='replace',
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            res[pid] = (r.returncode, r.stdout)
    finally:
        shutil.rmtree(path, ignore_errors=True)
    return ident, own, res


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        ns = {}
        exec(compile(open(args[0], encoding='utf-8').read(), args[0], 'exec'), ns)
        bugs = [b for b in ns['BUGS'] if not args[1:] or b['id'] in args[1:]]
        with ThreadPoolExecutor(6) as ex:
            for ident, msgs in ex.map(make, bugs):
                print(ident, 'OK' if not msgs else '\n   '.join([''] + msgs), flush=True)
    else:
        checks = 'own'
        if args[:1] == ['--checks']:
            checks = args[1]
            args = args[2:]
        if checks == 'all':
            checks = [c['property_id'] if 'property_id' in c else c['property'] for c in
                      json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
        elif checks != 'own':
            checks = checks.split(',')
        with ThreadPoolExecutor(3) as ex:
            for ident, own, res in ex.map(lambda i: run(i, checks), args or sorted(os.listdir(SEEDED))):
                caught = [p for p, (c, o) in res.items() if c == 1]
                odd = [p for p, (c, o) in res.items() if c not in (0, 1)]
                print(ident, own, 'CAUGHT' if own in caught else 'missed' if own in res else '-',
                      'by', ','.join(caught), ('ODD ' + ','.join(odd)) if odd else '', flush=True)
                for p in odd:
                    print(res[p][1][-1500:])


main()

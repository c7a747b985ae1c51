"""Checks that the planted bugs apply and change lines of the original repository."""
import os
import re
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'c074b6b'   # the pinned commit
bad = 0
seen = {}
for b in sorted(os.listdir(os.path.join(here, 'seeded'))):
    p = os.path.join(here, 'seeded', b, 'patch.diff')
    if subprocess.call(['git', '-C', '/repo', 'apply', '--check', p]):
        print(b, 'does not apply')
        bad += 1
        continue
    text = open(p).read()
    if text in seen:
        print(b, 'is the same as', seen[text])
    seen[text] = b
    own = touched = 0
    name = None
    for line in text.splitlines():
        m = re.match(r'--- a/(.*)', line)
        if m:
            name = m.group(1)
            if name.startswith('xylem/specs/'):
                print(b, 'changes', name)
                bad += 1
            out = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', name]).decode()
            blame = out.splitlines()
            n = subprocess.check_output(['git', '-C', '/repo', 'rev-list', BASE + '..HEAD']).decode()
            mine = set(x[:7] for x in n.split())
        m = re.match(r'@@ -(\d+)', line)
        if m:
            lineno = int(m.group(1))
            continue
        if name and line[:1] in ' -' and not line.startswith('---'):
            if line[0] == '-':
                touched += 1
                if blame[lineno - 1][:7] in mine:
                    own += 1
            lineno += 1
    if own and own == touched:
        print(b, 'changes only lines of our own')
        bad += 1
sys.exit(bool(bad))

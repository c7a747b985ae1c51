"""Writes /verif/MANIFEST.json for the properties whose module exists."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from pbt.registry import MODULES  # noqa

TECHNIQUE = {
    'R01': 'property-based testing: grammar-generated documents against a reference expander',
    'R02': 'property-based testing: corrupted rules dicts against an independent validator',
    'R03': 'property-based testing against a reference lookup',
    'R04': 'property-based testing: merged lookup compared with layered reference lookup',
    'R05': 'property-based testing: compact/expand round trip compared by lookups',
    'R06': 'property-based testing against a reference key listing',
    'R07': 'property-based testing of the command: round trip and idempotence of file contents',
    'S01': 'property-based testing: generated directories against a model of the sources',
    'S02': 'stateful model-based testing of edit/update/read histories',
    'S03': 'stateful model-based testing with injected source failures',
    'S04': 'fault injection at generated crash points, old-or-new oracle',
    'S05': 'property-based testing: file system snapshots before and after',
    'S06': 'stateful model-based testing with corrupted cache files',
    'S07': 'property-based testing over generated server behaviours against a retry model',
    'C01': 'property-based testing against a reference merge of the config layers',
    'C02': 'property-based testing: generated types and values against a reference validator',
    'C03': 'property-based testing: construct-and-parse and differential between config paths',
    'C04': 'property-based testing against a reference derivation of the directories',
    'C05': 'stateful testing: mutation histories with snapshots of all live configs',
    'C06': 'metamorphic property-based testing of option positions and config sources',
    'C07': 'property-based testing: dump/load round trip, and fuzzing of the loader',
    'C08': 'model-based property-based testing of sequences of declarations',
    'I01': 'property-based testing against a reference resolver',
    'I02': 'property-based testing against a reference composition of installers',
    'I03': 'property-based testing against a model of resolutions',
    'I04': 'property-based testing against a model of the command lines',
    'I05': 'stateful fault-injection testing against a simulated package manager',
    'I06': 'metamorphic testing: dry run compared with the real run and file system snapshots',
    'I07': 'stateful model-based testing against a simulated package manager',
    'I08': 'property-based testing over prerequisite states with a simulated package manager',
    'O01': 'property-based testing: permuted plugin sets and override histories against a model',
    'O02': 'property-based testing of order laws and a reference tuple derivation',
    'O03': 'property-based testing with generated release files and whole simulated systems',
    'P01': 'property-based testing with generated entry points against a model',
    'X01': 'stateful end-to-end testing of the command line against the reference models',
    'X02': 'property-based testing of generated exception chains',
    'X03': 'property-based testing of generated texts and console states',
    'X04': 'property-based testing of processes, and fault injection into nested contexts',
    'X05': 'property-based testing of generated help texts and calls against a reference formatter',
}
NOTE = ('Search over generated cases (counts, classes and samples in the evidence file); holds for '
        'what was explored, no exhaustiveness claimed. Trusts the reference model in /verif/pbt, '
        'CPython and hypothesis.')
NOTES = {
    'S04': ('Kills or fails the real save at byte offsets and at every file operation in a forked '
            'child, or lets another process save the same source there. Assumes a process crash, not a power loss (no reordering of disk writes).'),
    'S07': 'Servers are simulated below urllib (custom handlers); no real network.',
    'X01': ('Runs the real command line entry point in a forked process inside a scratch directory; '
            'installs only with the fake installer or stub package managers on a private PATH.'),
}
LEVEL = {'S04': 'fault_enumeration'}

checks = []
for pid in sorted(MODULES):
    if not os.path.exists(os.path.join(here, 'pbt', 'props', MODULES[pid] + '.py')):
        continue
    checks.append(dict(
        property=pid,
        quick_cmd='./check %s --tier quick' % pid,
        thorough_cmd='./check %s --tier thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique=TECHNIQUE[pid], level=LEVEL.get(pid, 'exploration'),
        level_note=NOTES.get(pid, NOTE)))
manifest = dict(
    version=1, setup_cmd='./setup.sh', checks=checks,
    not_applicable=[dict(property=p, reason='check not written yet') for p in sorted(MODULES)
                    if p not in [c['property'] for c in checks]],
    notes='Pure Python: checks import xylem from the working tree of /repo. No hooks.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks))

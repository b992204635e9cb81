#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that there are, and checks it."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

NOTES = {
    'S': 'Every case runs on the real code and the real SQLite library, up to the bounds given in the evidence (operations, depth, '
         'sizes); trusts SQLite, Python and the reference model in mc/hgmodel.py, which is compared with the code at every step.',
    'S10': 'Real files, connections and killed processes, every history up to a depth; trusts the file system of the sandbox.',
    'S11': 'Every crash point of the file operations recorded from the real SQLite library through a preloaded shim, with every '
           'subset of writes that were not synchronised (up to a limit) lost or torn; trusts the recording and the model of the disk.',
    'S12': 'An error before each database call of each operation, in every history up to a depth, on the real code; the error happens '
           'instead of the call; rollback itself does not fail.',
    'S13': 'All interleavings of the database calls of two or three real connections up to a preemption bound, each judged by '
           'linearizability against the reference model; waiting for a lock is modelled as blocking.',
    'B': 'As the storage checks: real code, every history up to a depth, against the reference model.',
    'N': 'Every sequence of operations up to a depth on the real code.',
    'M': 'Every history up to a depth on the real backend through a stand-in of the driver, which keeps its data in SQLite and has the '
         'conventions of MySQL; a real server (prefix keys, collations) is not covered.',
    'C': 'Every combination of a list of parameters and commands, on the real code in a scratch directory.',
    'Q': 'Every hypergraph over a small universe, on the real code, against a definition written independently.',
    'E': 'Every value of a bounded space, on the real code, against a definition written independently.',
    'Y': 'Every value of a bounded space, on the real code, against a definition written independently.',
    'L': 'Every dependency tree up to a size, on the real code; the parser is fed documents of the real spaCy library, no trained model.',
    'K': 'Every dependency tree up to a size over a list of kinds of words, on the real code, against a functional model of each stage.',
    'K07': 'Every sequence of operations up to a depth on the real trees against a functional model.',
    'R': 'Every small lexicon over a universe, and sizes around the limit of the buffer, on the real reader with stand-ins of synsets.',
    'W': 'Every dump up to a number of lines over a list of kinds of lines, on the real script.',
}


def main():
    import mc.main
    reg = mc.main.registry()
    props = [json.loads(line) for line in open(os.path.join(VERIF, 'properties.jsonl'))]
    checks, missing = [], []
    for p in props:
        pid = p['id']
        if pid in reg:
            c = reg[pid]
            checks.append({'property': pid, 'quick_cmd': './check %s' % pid, 'thorough_cmd': './check %s --thorough' % pid,
                           'technique': c.technique, 'level': c.level,
                           'level_note': NOTES.get(pid, NOTES[pid[0]])})
        else:
            missing.append({'property': pid, 'reason': 'the check is not built yet'})
    m = {'version': 1,
         'setup_cmd': 'gcc -shared -fPIC -O1 -o /dev/null mc/shim.c -ldl && ./check --list > /dev/null',
         'checks': checks, 'not_applicable': missing,
         'notes': 'No hooks in /repo: the checks drive the code through its public interface, stand-ins of libraries and a preloaded '
                  'shim. known_findings.txt lists repaired defects.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    unknown = set(reg) - set(p['id'] for p in props)
    if unknown:
        sys.exit('checks without property: %s' % unknown)
    code = '''
import json, jsonschema, sys
m = json.load(open('MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for line in open('properties.jsonl'):
    jsonschema.validate(json.loads(line), s)
print('%d checks, %d not applicable' % (len(m['checks']), len(m['not_applicable'])))
'''
    subprocess.run(['python3-vt', '-c', code], cwd=VERIF, check=True)


if __name__ == '__main__':
    main()

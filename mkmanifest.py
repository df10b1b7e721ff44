#!/usr/bin/env python3
"""Regenerates MANIFEST.json from specs/*.py and properties.jsonl (run by hand, committed result)."""
import json, os, importlib, sys, re
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
na = json.load(open('not_applicable.json')) if os.path.exists('not_applicable.json') else []
checks = []
for p in props:
    i = p['id']
    f = 'specs/%s.py' % i
    if not os.path.exists(f):
        assert any(n['property'] == i for n in na), i
        continue
    src = open(f).read()
    doc = re.match(r'"""(.*?)"""', src, re.S).group(1).strip()
    note = re.search(r"^LEVEL_NOTE = \(?(.*?)\)?\n\n", src, re.S | re.M)
    lvl = re.search(r"^LEVEL = '(\w+)'", src, re.M)
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt -m vf.run %s --tier quick' % i,
        'thorough_cmd': 'python3-vt -m vf.run %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification of the real code (per-function contracts over mechanically extracted LLVM IR, thread-modular lock/atomic invariants, obligations discharged by z3)',
        'level': lvl.group(1) if lvl else 'proof',
        'level_note': (eval('(' + note.group(1) + ')') if note else
                       'Every obligation generated from the current sources is discharged for all inputs, schedules and loop iterations. ') +
                      ' Trusted: clang -O0 lowering, the VF verification-condition generator, z3, the assumed contracts of the C++ runtime and standard library listed in the evidence file; sequentially consistent atomics.',
    })
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())" && clang++-18 --version && mkdir -p build evidence',
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. No hooks in /repo are needed.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
C = 'internals/compiler/'
S = 'internals/semantic/'
P = 'internals/parser/'
L = 'internals/lexer/'

IR = ("The module that the real front end and compiler produce is executed, instruction by instruction, by an "
      "explicit-state interpreter of LLVM IR; a fixed share of the programs and every mismatch is executed by the installed LLVM as well. ")
TRUST = "Trusts the reference model in h/ref.go, which is written from the documentation of the language and shares no code with the compiler. "

PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, level='model_checking'):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, technique=technique, note=note, level=level))


exec(open(os.path.join(HERE, 'properties.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in sorted(PROPS, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        assert len([s for s in p['statement'].split('. ') if s.strip()]) <= 3, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': ['the diagnostics of the front end, the emitted module and the output of the compiled program'],
                        'hook_needed': None},
        }) + '\n')

checks = []
for p in sorted(PROPS, key=lambda p: p['id']):
    checks.append({
        'property': p['id'],
        'quick_cmd': 'bash check.sh %s quick' % p['id'],
        'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'], 'level': p['level'], 'level_note': p['note'],
    })
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': checks,
        'not_applicable': NOT_APPLICABLE,
        'notes': 'No hooks: the harness is laid over /repo/cmd/zz_verif with go build -overlay. See DESIGN.md.',
    }, f, indent=1)
    f.write('\n')

#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props

LEVEL_NOTE = ('Effect summaries of every public function in scope, from the current MIR, over all arguments and prior states, decided equal to the reviewed '
              'contract (sound up to the models of std, memchr, itoa, ryu in sa/models.py and the assumption that callbacks are deterministic); '
              'a function the analysis cannot decide is listed as undecided in the evidence and does not alarm.')
LN = {
    'C47': 'Reachability over the resolved call graph of the current MIR from every public function, against a deny list of ambient-state sources; sound for direct and resolved trait calls, trusts the listed std functions to be pure.',
    'C48': 'Compile-fail witnesses with twins that compile, checked by the compiler against the current tree, and a signature rule over every public method returning a writer.',
}
TECH = {
    'C47': 'effect analysis: who-may-call reachability over resolved MIR call graph',
    'C48': 'compile-fail witnesses and borrow-signature rule over the typed API',
}
T = 'abstract interpretation of MIR into effect summaries, compared with a reviewed contract'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    def line(id, title, statement, over, text, why, anchors):
        f.write(json.dumps({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': anchors}) + '\n')
    for p in props.P:
        a = {'files': p['files'], 'mechanism': p['mech'], 'hook_needed': None}
        if p['state']:
            a['state'] = p['state']
        if p['observe']:
            a['observe_at'] = p['observe']
        line(p['id'], p['title'], p['statement'], p['over'], p['text'], p['why'], a)
    for id, title, st, over, text, reason in props.NA:
        line(id, title, st, over, text, 'No finite set of runs settles it.', {'files': ['src/lib.rs'], 'mechanism': [{'name': 'none in this repository alone', 'where': 'src/lib.rs'}]})
man = {
    'version': 1,
    'setup_cmd': 'python3 setup.py',
    'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                'technique': p['tech'] or TECH.get(p['id']) or T, 'level': 'other', 'level_note': LN.get(p['id'], LEVEL_NOTE)} for p in props.P],
    'not_applicable': [{'property': n[0], 'reason': n[5]} for n in props.NA],
}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

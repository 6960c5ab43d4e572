"""Source of properties.jsonl and MANIFEST.json: python3 tools/catalog.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYN = 'src/core/language/syntax/'
SEM = 'src/core/execution/semantics/'
PR = []
NA = []
def p(id, title, statement, over, q, why, files, mech, technique=None, note=None, na=None, observe=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, id
    PR.append((d, technique or TECH, note or NOTE))
    if na: NA.append({'property': id, 'reason': na})
TECH = 'abstract interpretation of MIR with trace partitioning; function summaries compared with a specification'
NOTE = ('Each anchored function is summarised on the MIR of the current tree (every path, loops by invariant) and its summary must equal the specification '
        'in every partition. Assumes the std/itertools models and structural induction for recursive calls; termination is not decided. '
        'What leaves the analysed fragment is reported as undecided, never as an alarm.')
exec(open(os.path.join(V, 'tools', 'entries.py')).read())
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, _, _ in PR: f.write(json.dumps(d, ensure_ascii=False) + '\n')
    na = {x['property'] for x in NA}
    m = {'version': 1, 'setup_cmd': './setup.sh',
         'hooks': {'guard': 'none', 'enable': 'no hook: the checks read the MIR of the unmodified crate', 'source_commits': []},
         'checks': [{'property': d['id'], 'quick_cmd': './check.sh %s quick' % d['id'], 'thorough_cmd': './check.sh %s thorough' % d['id'],
                     'technique': t, 'level': 'other', 'level_note': n} for d, t, n in PR if d['id'] not in na],
         'not_applicable': NA}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
    print(len(PR), 'properties,', len(m['checks']), 'claimed')
main()

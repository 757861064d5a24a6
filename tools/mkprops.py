"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand)."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, q, why, files, mech, state=(), observe=(), tech=None, level='other', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': q}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                           'state': [{'name': a, 'meaning': m, 'where': w} for a, m, w in state],
                           'observe_at': list(observe), 'hook_needed': None},
                  _t=tech, _l=level, _n=note, _na=na))


EV, BC, BR, GA, UT = 'src/evaluator.rs', 'src/bool_circuit.rs', 'src/bristol_converter.rs', 'src/gates.rs', 'src/utils.rs'
AR, CM, CR = 'src/circuits/arithmetic/mod.rs', 'src/circuits/mod.rs', 'src/circuits/cryptography/mod.rs'
INT, LOG, FF = 'src/circuits/arithmetic/int.rs', 'src/circuits/logic/mod.rs', 'src/circuits/finite_field/mod.rs'
exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    src = ''.join(open(os.path.join(ROOT, 'sa', x)).read() for x in os.listdir(os.path.join(ROOT, 'sa')) if x.startswith('c_'))
    have = set(re.findall(r"@check\('([A-Z]\d+)'\)", src))
    M = {'version': 1, 'setup_cmd': 'bash setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the unmodified source through the compiler front end', 'source_commits': []}, 'checks': [], 'not_applicable': [], 'notes': NOTES}
    for p in P:
        if p['id'] in have and not p['_na']:
            M['checks'].append({'property': p['id'], 'quick_cmd': f'bash check.sh {p["id"]}', 'thorough_cmd': f'bash check.sh {p["id"]} thorough',
                                'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['_t'], 'level': p['_l'], 'level_note': p['_n']})
        else:
            M['not_applicable'].append({'property': p['id'], 'reason': p['_na'] or 'No check yet.'})
    json.dump(M, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(M['checks']), 'claimed', [x['property'] for x in M['not_applicable']], 'not')


main()

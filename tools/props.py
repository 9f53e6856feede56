"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = 'moving_mesh_transport/solver_classes/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a['observe_at'] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, note))


exec(open(os.path.join(ROOT, 'tools', 'prop_list.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, t, n in P:
        if os.path.exists(os.path.join(ROOT, 'mc', f"p_{p['id']}.py")):
            checks.append(dict(property=p['id'], quick_cmd=f"./run {p['id']} quick", thorough_cmd=f"./run {p['id']} thorough",
                               evidence_file=f"evidence/{p['id']}.json", technique=t, level='model_checking', level_note=n))
        else:
            na.append(dict(property=p['id'], reason='check not built yet'))
    for q, r in NA:
        na.append(dict(property=q, reason=r))
    m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
             notes='No hooks: the explorer drives the public classes and functions of the repository directly. '
                   'known_findings.json lists recorded and repaired defects. ./run --replay replays/<id>.json re-executes one violation.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p, _, _ in P:
            jsonschema.validate(p, s)
        print('schemas ok', len(P), 'properties', len(checks), 'checks')
    except ImportError:
        pass


main()

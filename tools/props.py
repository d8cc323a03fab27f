#!/usr/bin/env python3
"""Single source of the property list; `python3 tools/props.py` rewrites properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe or [], hook_needed=hook)))
exec(open(os.path.join(R, 'tools', 'props_data.py')).read())
if __name__ == '__main__':
    ids = [p['id'] for p in P]; assert len(ids) == len(set(ids))
    with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')

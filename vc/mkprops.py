"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=mechanism)))
INP = ['inputs']
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.txt')).read())
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')

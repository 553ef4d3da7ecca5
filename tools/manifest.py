"""writes MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
import check
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
XML = 'TLA+ machine of XML (spec/Xml.tla), TLC: generation of documents from it, validation of traces of the real parser, tree and serializer against it'
TECH = check.TECHNIQUES if hasattr(check, 'TECHNIQUES') else {}
NOTE = ('Every document judged is one the specification decides completely (its verdict, all events, the tree, the serialization). Bounded exhaustive over fragment '
        'alphabets, random beyond. Trusts TLC, the recorder in /verif/driver, and that the specification states XML 1.0 as helium supports it.')
NOTES = check.NOTES if hasattr(check, 'NOTES') else {}
checks = []
na = []
for p in props:
    i = p['id']
    if i in check.PARTS:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           technique=TECH.get(i, XML), level='model_checking', level_note=NOTES.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'lib\'); import pipe"', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the public API and event handlers expose everything the specification talks about.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)

import json
LV=json.load(open('/verif/levels.json'))
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m={'version':1,'setup_cmd':'python3 -c "import z3" 2>/dev/null; python3-vt -c "import z3" && clang --version >/dev/null && opt-18 --version >/dev/null','checks':[],'not_applicable':[]}
for i in ids:
    l=LV.get(i,{'level':'exploration','technique':'bounded native runs against a reference model (stand-in until the contracts of this property are discharged)','note':'bounded'})
    m['checks'].append({'property':i,'quick_cmd':'python3-vt check.py %s --tier quick'%i,'thorough_cmd':'python3-vt check.py %s --tier thorough'%i,'technique':l['technique'],'level':l['level'],'level_note':l['note']})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)

#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def prop(id,title,statement,over,text,why,files,mech,tech=None,note=None,na=None,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,tech=tech,note=note,na=na,state=list(state),observe=list(observe)))
TC='LLVM IR of the current headers, an operator at a time; trusted: clang, the irx specialiser, the interpreter in rules/, and the mathematical table rules/optable.py. Exact arithmetic.'
exec(open(os.path.join(V,'tools','props.py')).read())
with open(os.path.join(V,'properties.jsonl'),'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['text']),why_tests_cant=p['why'],
            anchors=dict(files=p['files'],state=p['state'],mechanism=[dict(name=a,where=b) for a,b in p['mech']],observe_at=p['observe'],hook_needed=None)))+'\n')
m=dict(version=1,setup_cmd='bash tools/build.sh',hooks=dict(guard='CPPAD_VERIF_UNUSED',enable='no hooks are needed: the checks read the headers as they are',source_commits=[]),
  checks=[dict(property=p['id'],quick_cmd='python3 check.py %s quick'%p['id'],thorough_cmd='python3 check.py %s thorough'%p['id'],technique=p['tech'],level='other',level_note=p['note']) for p in P if p['tech']],
  not_applicable=[dict(property=p['id'],reason=p['na']) for p in P if not p['tech']],
  notes='Static analysis only. See DESIGN.md.')
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)

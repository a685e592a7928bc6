#!/usr/bin/env python3
import sys,json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
from props import PROPS
try: from props import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE={}
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
m=dict(version=1,setup_cmd='true',checks=[dict(property=p,quick_cmd='./check %s quick'%p,thorough_cmd='./check %s thorough'%p,technique=P['technique'],level=P['level'],level_note=P['note']) for p,P in PROPS.items()],
  not_applicable=[dict(property=i,reason=NOT_APPLICABLE.get(i,'no check built yet')) for i in ids if i not in PROPS],
  notes='No hooks: the checks read the headers in /repo as they are. See DESIGN.md.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)

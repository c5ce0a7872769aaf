"""regenerates MANIFEST.json from properties.jsonl and the checks that exist (development helper; no check runs it)"""
import json, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta=json.load(open(os.path.join(V,'tools','meta.json')))
checks,na=[],[]
for l in open(os.path.join(V,'properties.jsonl')):
    p=json.loads(l)['id']
    if os.path.exists(os.path.join(V,'checks',p.lower()+'.py')) and p not in meta['hold']:
        checks.append({'property':p,'quick_cmd':'./run.sh %s quick'%p.lower(),'thorough_cmd':'./run.sh %s thorough'%p.lower(),
          'technique':meta['technique'].get(p,meta['technique']['*']),'level':'other','level_note':meta['note'].get(p,meta['note']['*'])})
    else:
        na.append({'property':p,'reason':meta['na'].get(p,'no static check is built for it yet in this state of the framework')})
json.dump({'version':1,'setup_cmd':'./run.sh setup','checks':checks,'not_applicable':na},open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'claimed',len(na),'not')

"""regenerates known_findings.txt from the fix commits of /repo (development helper; no check runs it)"""
import subprocess
P = {'3a17a96':'C04','d9c5478':'C10','2b8529d':'C10','ca0b737':'C32','58e7e3b':'C08','6b17822':'C08','34da2c0':'C05','f76d824':'C20','79d1a5b':'C09',
'3670a66':'C06','4909f48':'C20','33813fc':'C11','3784a4d':'C13','87723ae':'C12','d068e8d':'C16','d2519da':'C12','c10eb51':'C20','d3c619d':'C14','82df62c':'C18',
'047aa9f':'C22','44f0508':'C22','0dc607f':'C21','c907edb':'C23','562e64d':'C23','e1153cd':'C21','9804be0':'C17','cee849b':'C17','ac1bd6f':'C17','681b05a':'C19',
'7f2f7b4':'C19','10e2e1f':'C18','2a2882b':'C19','ab70aa1':'C29','f018da4':'C30','886dab8':'C30','2bd3d7f':'C30','6195b8e':'C21','b66bcf8':'C21','0b20cd4':'C24',
'7876b65':'C24','b290f51':'C23','a7dce34':'C25','4330172':'C25','c80c820':'C20','b55987c':'C26','a6a2063':'C26','36f5ebf':'C27','ddec074':'C28','75152fe':'C28','ed92655':'C28','2cba679':'C26'}
import json,os
extra = os.path.join(os.path.dirname(__file__),'fixprops.json')
if os.path.exists(extra): P.update(json.load(open(extra)))
out=['# Genuine defects of ampas/CLF. "fixed:" entries are repaired in /repo and suppress nothing; "known:" entries are reported as KNOWN-FINDING.']
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if s.startswith('fix: '):
        if h not in P: print('unmapped',h,s)
        out.append('fixed: property=%s %s %s (behaviour now: this; before it was not so)'%(P.get(h,'C20'),h,s[5:]))
kp=os.path.join(os.path.dirname(__file__),'known_open.txt')
if os.path.exists(kp): out+= [x.rstrip() for x in open(kp) if x.strip()]
open(os.path.join(os.path.dirname(__file__),'..','known_findings.txt'),'w').write('\n'.join(out)+'\n')

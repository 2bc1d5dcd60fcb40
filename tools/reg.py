"""Registers a check entry in checks.py: reg.py ID harness shards 'technique' 'note'."""
import sys
i,h,n,t,note=sys.argv[1:6]
p='/verif/tools/checks.py'
s=open(p).read()
e='    "%s": dict(harness="%s", shards=%s, technique=%r,\n                note=%r),\n'%(i,h,n,t,note)
ls=s.split('    "C')
head,body=ls[0],ls[1:]
last=body[-1]
k=last.index('}\nNA_REASON'); tail=last[k:]; body[-1]=last[:k]
ents=['    "C'+b for b in body if not b.startswith(i[1:]+'"')]+[e]
ents.sort(key=lambda x:x[5:8])
open(p,'w').write(head+''.join(ents)+tail)

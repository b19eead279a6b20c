#!/usr/bin/env python3
# Rewrites the "Planted bugs" table at the end of DESIGN.md (development helper; not used by any check).
import json,glob,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first={'U02-1':'missed at first (s with two zero bytes was only tried where a pad follows); shape made stricter',
'B05-1':'missed at first; scenario "lengths" added','S01-2':'missed at first; near-identical calls added',
'A03-1':'missed at first; scenario "…-characters" added','T02-1':'missed at first; scenario "altered-signature-variant" added',
'K01-1':'missed at first; scenario "rare-values" added','S02-2':'missed at first; preemption between two locked steps needs two switches: "schedules" stages',
'B03-2':'prompted address reuse in pickSpends','B04-1':'prompted address reuse in pickCombo'}
rows=[]
for d in sorted(glob.glob(H+'/seeded/*')+glob.glob(H+'/seeded_slow/*'),key=os.path.basename):
    i=os.path.basename(d); m=json.load(open(d+'/meta.json'))
    f=', '.join(l[6:].strip() for l in open(d+'/patch.diff') if l.startswith('+++ b/'))
    rows.append('| %s | %s | %s | %s | %s |'%(i,f,m['needs'],m['property'],first.get(i,'')))
p=H+'/DESIGN.md'; s=open(p).read()
k='\n## Planted bugs\n'
s=s[:s.index(k)] if k in s else s.rstrip('\n')+'\n'
s+=k+'\nEach was written from the property text and the code, with a demonstration; all are caught (exit 1) by the check of their property at quick tier. A01-1, A02-1, B04-1, K01-1, R02-1 and T01-1 (short checks) are in seeded/, the others in seeded_slow/.\n\n| bug | file | needs | caught by | note |\n|---|---|---|---|---|\n'+'\n'.join(rows)+'\n'
open(p,'w').write(s)

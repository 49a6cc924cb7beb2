"""addrows.py: rows for the table of planted bugs in DESIGN.md, given as lines `ID | how it was caught`"""
import sys, json
f='/verif/DESIGN.md'; s=open(f).read(); ls=s.split('\n')
for l in sys.stdin:
    k,c=[x.strip() for x in l.split('|')]
    m=json.load(open(f'/verif/seeded/{k}/meta.json'))
    row=f"| {k} | {m['property']} | {m['needs']} | {c} |"
    i=next(i for i,l in enumerate(ls) if l.startswith('| bug | property'))+2
    while ls[i].startswith('| ') and ls[i][2:].split(' ')[0]<k: i+=1
    if ls[i].startswith(f'| {k} '): ls[i]=row
    else: ls.insert(i,row)
open(f,'w').write('\n'.join(ls))

#!/usr/bin/env python3
"""Rewrites the generated table between the markers of DESIGN.md from properties.jsonl and the evidence of the last quick runs."""
import json,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE=json.load(open(R+'/tools/design_notes.json'))
out=[]
for l in open(R+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    e=json.load(open(f'{R}/evidence/{i}.json'))
    out.append(f"### {i} {p['title']}\n")
    if NOTE.get(i): out.append(NOTE[i]+"\n")
    for f in e['coverage']['families']:
        out.append(f"* `{f['name']}`: {f['alphabet_and_bound']}.")
    c=e['coverage']
    out.append(f"\nQuick: {c['states']:,} states, {c['transitions']:,} transitions, {e['wall_s']:.1f} s.\n")
s=open(R+'/DESIGN.md').read()
a,b='<!-- generated: per property -->\n','<!-- end generated -->\n'
x,y=s.index(a)+len(a),s.index(b)
open(R+'/DESIGN.md','w').write(s[:x]+'\n'+'\n'.join(out)+'\n'+s[y:])

#!/usr/bin/env python3
# DESIGN.md = design_head.md + one paragraph per property + design_tail.md + the table of planted bugs.
import json,os,subprocess
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T=R+'/tools/'
out=open(T+'design_head.md').read().rstrip()+'\n\n## Properties\n\nCosts are wall time on the 8 cores of this sandbox, quick / thorough. Where no thorough time is given, that command was not run to its end on the last commits (that of C12 took over 15 minutes in an interrupted run).\n\n'
out+=subprocess.check_output(['python3',T+'design_props.py'],text=True)
out+=open(T+'design_tail.md').read()
rows=[]
for d in sorted(os.listdir(R+'/seeded')):
    p=f'{R}/seeded/{d}/meta.json'
    if os.path.exists(p):
        m=json.load(open(p)); rows.append((m['property'],d,m['needs'],m['what_it_breaks']))
rows.sort()
out+=f'''Each is caught by the quick check of its property (`/verif/seeded`, {len(rows)} kept).  Those that were missed when they were
planted led to extensions: names that differ slightly or in case, programs that are renamed, conditions in every use,
deep parentheses, histories without intermediate observation, many segments, the same step twice, scattered ids.  Two
were dropped because they break no stated property: the Kelvin sign as the letter k in keywords, and a description that
leaves out an empty list of fields.

| property | id | needs | breaks |
|---|---|---|---|
'''
for r in rows: out+='| '+' | '.join(x.replace('|','\\|') for x in r)+' |\n'
open(R+'/DESIGN.md','w').write(out)

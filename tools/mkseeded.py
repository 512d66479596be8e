"""rewrites section 6 of DESIGN.md from seeded/*/meta.json; outcome column from tools/seed_outcomes.json"""
import json,os
d='/verif/seeded'; out=json.load(open('/verif/tools/seed_outcomes.json'))
t=open('/verif/DESIGN.md').read(); i=t.index('## 6. Planted bugs')
s='## 6. Planted bugs\n\nOutcome of running the property\'s check with the patch applied (`contract`: a named obligation of the verifier failed and a\nfailing input was replayed on the real code; `stand-in`: the rewritten body was undecided, the native checks found it).\n\n| id | property | needs | outcome |\n|---|---|---|---|\n'
for k in sorted(os.listdir(d)):
    m=json.load(open(f'{d}/{k}/meta.json'))
    s+=f"| {k} | {m['property']} | {m['needs']} | {out.get(k,'not run')} |\n"
open('/verif/DESIGN.md','w').write(t[:i]+s)

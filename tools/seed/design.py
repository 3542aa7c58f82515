import json,glob,re
p='/verif/DESIGN.md'; s=open(p).read()
i=s.find('## Planted bugs')
if i>=0: s=s[:i]
s=s.rstrip()+"\n\n## Planted bugs\n\nEach was written from the statement of its property, confirmed in a scratch copy (builds, passes the stable tests, demo passes\nwithout and fails with it) and then run against the check of its property. `tools/seed/` regenerates and validates them.\n\n| bug | needs | caught by |\n|---|---|---|\n"
extra=json.load(open('/tmp/caught.json')) if __import__('os').path.exists('/tmp/caught.json') else {}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); b=d.split('/')[-2]
    s+="| %s | %s | %s |\n"%(b,m['needs'].replace('|','/'),extra.get(b,m['property']))
open(p,'w').write(s)

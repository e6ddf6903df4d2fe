#!/usr/bin/env python3
# reg.py ID level technique note: registers a built check and rewrites MANIFEST.json
import json,sys,subprocess
p='/verif/tools/checks.json'
d=json.load(open(p))
i,l,t,n=sys.argv[1:5]
d[i]={"technique":t,"level":l,"note":n}
json.dump(dict(sorted(d.items())),open(p,'w'),indent=1)
subprocess.check_call(['python3','/verif/tools/mkmanifest.py'])

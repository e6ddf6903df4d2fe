#!/usr/bin/env python3
# rewrites the tables of DESIGN.md between its markers from known-findings.txt and seeded/
import re,json,os
R='/verif/'
s=open(R+'DESIGN.md').read()
fx=[];fd=[]
for l in open(R+'known-findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fx.append(m.groups())
    m=re.match(r'finding: property=(\S+) sig=(\S+) (.*)',l)
    if m: fd.append(m.groups())
t='| property | signature | what fails |\n|---|---|---|\n'+''.join('| %s | %s | %s |\n'%x for x in sorted(fd))
u='| property | commit | what failed |\n|---|---|---|\n'+''.join('| %s | %s | %s |\n'%x for x in sorted(fx))
v='| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
for d in sorted(os.listdir(R+'seeded')):
    try: m=json.load(open(R+'seeded/%s/meta.json'%d))
    except OSError: continue
    v+='| %s | %s | %s | %s | %s |\n'%(d,m['property'],m['needs'],m['what_it_breaks'],m.get('caught_by',m['property']))
for k,x in (('findings',t),('fixed',u),('seeded',v)):
    s=re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)'%k,lambda m:m.group(1)+x+m.group(2),s,flags=re.S)
open(R+'DESIGN.md','w').write(s)

#!/usr/bin/env python3
# usage: mut.py IDS  < spec ; spec blocks: "### name", "file", "<<<<", old, "====", new, ">>>>" (several per name)
import sys,re,subprocess,shutil,os
ids=sys.argv[1]
blocks=re.split(r'(?m)^### ',sys.stdin.read())[1:]
for b in blocks:
    name,rest=b.split('\n',1)
    shutil.rmtree('/tmp/mut',ignore_errors=True)
    shutil.copytree('/repo','/tmp/mut',symlinks=True)
    ok=True
    for m in re.finditer(r'(?ms)^(\S+)\n<<<<\n(.*?)\n?====\n(.*?)\n?>>>>',rest):
        f,old,new=m.groups(); p='/tmp/mut/src/'+f; s=open(p).read()
        if s.count(old)<1: print(name,'OLD NOT FOUND',f,repr(old[:60])); ok=False; break
        s=s.replace(old,new,1); open(p,'w').write(s)
    if not ok: continue
    if '!build' not in name:
        c=subprocess.run('cd /tmp/mut/src && . /opt/vp/env.sh 2>/dev/null; go vet . 2>&1 | tail -0; go build -o /dev/null . 2>&1|tail -5',shell=True,capture_output=True,text=True)
        if c.stdout.strip(): print(name,'DOES NOT BUILD',c.stdout[:300]); continue
    r=subprocess.run(['/verif/bin/wikilint','-p',ids,'-verif','/tmp/mv'],env=dict(os.environ,WIKI_REPO='/tmp/mut'),capture_output=True,text=True)
    v=[l[:230] for l in r.stdout.split('\n') if re.match(r'\s+\S*: \[|VIOL|KNOWN',l)]
    print(name,'rc',r.returncode, r.stderr[:300]); print('\n'.join('    '+x for x in v[:4]))
shutil.rmtree('/tmp/mut',ignore_errors=True)

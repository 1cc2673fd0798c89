"""claim.py ID 'technique' 'level note': turns a pending property of props.py into a claimed one."""
import re, sys
pid, tech, note = sys.argv[1:4]
f = "/verif/tools/props.py"
s = open(f).read()
m = re.search(r'prop\("%s",.*?na=PEND\)' % pid, s, re.S)
assert m and m.group(0).count("prop(") == 1, pid
import json
new = m.group(0)[:-len("na=PEND)")].rstrip().rstrip(",") + ",\n " + json.dumps(tech) + ",\n " + json.dumps(note) + ")"
s = s[:m.start()] + new + s[m.end():]
open(f, "w").write(s)

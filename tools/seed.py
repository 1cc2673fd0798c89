#!/usr/bin/env python3
"""seed.py FILE...: builds /verif/seeded/<id> from a description and confirms it: the change builds, passes the tests, and
the demonstration passes without and fails with it. Description: "id:", "property:", "needs:", "breaks:", "pkg:" lines,
mut.py replacement blocks, then "--- demo" followed by the Go test (function TestDemo...)."""
import sys, re, os, json, subprocess, shutil
DEMO = '''#!/bin/bash
# Runs the demonstration as a test of package %(pkg)s (all its files are in temporary folders).
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$repo/src/%(rel)szz_demo_test.go": "$here/demo_test.go"}}
EOF
cd src && TMPDIR="$tmp" timeout 250 go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestDemo' ./%(pkg)s
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
for f in sys.argv[1:]:
    s = open(f).read()
    head, demo = s.split("--- demo\n", 1)
    g = lambda k: re.search(r'(?m)^%s: *(.*)$' % k, head).group(1)
    i = g("id"); d = "/verif/seeded/" + i
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo not clean"
    pkg = g("pkg")
    open(d + "/demo_test.go", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg, "rel": "" if pkg == "." else pkg + "/"}); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g("property"), "needs": g("needs"), "what_it_breaks": g("breaks")}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    try:
        for m in re.finditer(r'(?ms)^(\S+)\n<<<<\n(.*?)\n?====\n(.*?)\n?>>>>', head):
            p = "/repo/src/" + m.group(1); t = open(p).read()
            if t.count(m.group(2)) < 1: print(i, "OLD NOT FOUND", m.group(2)[:60]); ok = False; break
            open(p, "w").write(t.replace(m.group(2), m.group(3), 1))
        if not ok: continue
        sh("cd /repo/src && gofmt -l . ")
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r = sh("cd /repo && bash %s/demo.sh" % d)
        t = sh("/tmp/vt.sh")
        prop = g("property")
        w = sh("/verif/bin/wikilint -p %s -verif /tmp/mv" % prop)
        print(i, "demo with patch rc", r.returncode, "|", [l for l in (r.stdout+r.stderr).splitlines() if "demo_test" in l or "panic" in l or "FAIL" in l][:2], "|", t.stdout.strip()[-40:], "| check rc", w.returncode)
        if w.returncode == 1: print("    ", [l for l in w.stdout.splitlines() if ": [" in l][:2])
    finally:
        sh("git -C /repo checkout -- .")
    r = sh("cd /repo && bash %s/demo.sh" % d)
    print(i, "demo without patch rc", r.returncode, "" if r.returncode == 0 else (r.stdout + r.stderr)[-600:])

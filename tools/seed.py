#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a definition in tools/seeds/<id>.py and confirms it:
the change applies, builds, passes the tests, and the demonstration tells both trees apart.
usage: seed.py [-n] ID...   (-n: skip writing, only run the checks against the change)"""
import json, os, re, shutil, subprocess, sys, textwrap
V = "/verif"; R = "/repo"; W = "/tmp/w/seedrepo"; ORIG = "ce693cc"
ENV = dict(os.environ)
for l in open("/opt/vp/env.sh"):
    for k, v in re.findall(r"(\w+)=(\S+)", l if l.startswith("export") else ""):
        ENV[k] = v

def sh(cmd, cwd=W, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

DEMO = '''#!/bin/bash
# builds the tool, evaluates the documents beside this file in a scratch directory and compares the output
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
go build -buildvcs=false -o "$tmp/yisp" . || exit 1
cp -r "$here/docs" "$tmp/docs" && cd "$tmp/docs" || exit 1
export HOME="$tmp/home"; mkdir -p "$HOME"
%s
'''
RUN = '''"$tmp/yisp" build %s > "$tmp/out" 2> "$tmp/err" < /dev/null
status=$?
[ "$status" = %d ] || { echo "exit status $status instead of %d"; cat "$tmp/err"; exit 1; }
diff "$here/expected" "$tmp/out"'''
GOT = '''#!/bin/bash
# runs the test beside this file inside the package %(pkg)s, through an overlay
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/zz_demo_test.go"}}' "$PWD" "$tmp" > "$tmp/overlay.json"
export TMPDIR="$tmp"
go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo' "./%(pkg)s"
'''

def load(i):
    d = {}
    exec(open(f"{V}/tools/seeds/{i}.py").read(), d)
    return d

def fresh():
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", R, W], check=True)

def main(ids, dry):
    rows = []
    for i in ids:
        d = load(i)
        fresh()
        for f, old, new in d["edits"]:
            t = open(f"{W}/{f}").read()
            if t.count(old) != 1:
                print(i, "EDIT: found", t.count(old), "times:", old[:60]); sys.exit(1)
            open(f"{W}/{f}", "w").write(t.replace(old, new))
        out = f"{V}/seeded/{i}"
        g = sh("gofmt -l cmd core engine lib internal")
        if g.stdout.strip(): print(i, "gofmt", g.stdout)
        diff = sh("git diff").stdout
        # the removed lines, or where lines are only added the neighbours, come from the original
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
                o = sh(f"git show {ORIG}:{cur}").stdout
                if l[1:] not in o.splitlines(): print(i, "NOT ORIGINAL:", l)
        if not dry:
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            open(f"{out}/patch.diff", "w").write(diff)
            json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(f"{out}/meta.json", "w"), indent=1)
            for n, t in d.get("files", {}).items():
                os.makedirs(os.path.dirname(f"{out}/{n}") or out, exist_ok=True)
                open(f"{out}/{n}", "w").write(textwrap.dedent(t).lstrip("\n"))
            if "test" in d:
                demo = GOT % dict(pkg=d["pkg"])
                open(f"{out}/demo_test.go.txt", "w").write(d["test"].lstrip())
            elif "demo" in d:
                os.makedirs(f"{out}/docs", exist_ok=True)
                open(f"{out}/docs/.keep", "w").close()
                demo = DEMO % textwrap.dedent(d["demo"]).strip()
            else:
                st = d.get("status", 0)
                run = RUN % (d.get("args", "main.yisp"), st, st)
                # the expected output is what the unchanged tree prints (read it before relying on it)
                open(f"{out}/demo.sh", "w").write(DEMO % run.replace('diff "$here/expected" "$tmp/out"', 'cat "$tmp/out"'))
                got = sh(f"bash {out}/demo.sh", cwd=R)
                open(f"{out}/expected", "w").write(got.stdout)
                print(textwrap.indent(got.stdout.rstrip(), "    "))
                demo = DEMO % run
            open(f"{out}/demo.sh", "w").write(demo); os.chmod(f"{out}/demo.sh", 0o755)
            b = sh("go build -buildvcs=false ./...")
            if b.returncode: print(i, "BUILD", b.stdout); sys.exit(1)
            t = sh("go test -vet=off ./... 2>&1 | grep -v 'no test files'")
            if "FAIL" in t.stdout: print(i, "TESTS", t.stdout[-1500:]); sys.exit(1)
            bad = sh(f"bash {out}/demo.sh")
            good = sh(f"bash {out}/demo.sh", cwd=R)
            if good.returncode != 0: print(i, "DEMO fails on the unchanged tree:", good.stdout[-1500:]); sys.exit(1)
            if bad.returncode == 0: print(i, "DEMO passes with the change:", bad.stdout[-800:]); sys.exit(1)
        os.makedirs("/tmp/w/vd", exist_ok=True); shutil.copy(f"{V}/known-findings.txt", "/tmp/w/vd/")
        e = dict(ENV, YISP_REPO=W, VERIF_DIR="/tmp/w/vd")
        p = subprocess.run([f"{V}/bin/checker", "-property", d["property"]], env=e, text=True, capture_output=True)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION") or "VIOLATION" in l]
        verdict = "CAUGHT" if p.returncode == 1 else f"MISSED (exit {p.returncode})"
        first = next((l for l in p.stdout.splitlines() if l.strip() and not l.startswith("VIOLATION")), p.stderr[:300])
        print(f"{i:28} {d['property']} {verdict}  {first[:260]}")
    shutil.rmtree(W, ignore_errors=True)

a = sys.argv[1:]
dry = "-n" in a
ids = [x for x in a if x != "-n"] or sorted(x[:-3] for x in os.listdir(f"{V}/tools/seeds") if x.endswith(".py"))
main(ids, dry)
